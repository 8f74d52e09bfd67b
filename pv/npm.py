"""Contracts of numpy (the array library), over mathematical reals and integers.

An array is a shape (integer terms, or opaque blocks of dimensions indexed by their row-major linear
index) and a content function from index tuples to terms.  Content functions may call prove, never
decide."""
from . import terms as tm
from .terms import (T, TRUE, FALSE, ZERO, ONE, num, add, sub, mul, neg, le, lt, eq, ne, not_, and_, or_, ite,
                    subst, fv, ex_, all_, sum_, lam_, app, fresh)
from .values import *

INF = float('inf')
SORT = {'i': 'Int', 'f': 'Real', 'b': 'Bool'}


class Np:
    # ------------------------------------------------------------ basics
    def new(self, I, shape, content, kind):
        return Arr(shape, Cell(I.cx, content, kind))

    def size(self, I, a):
        return mul(ONE, *[dsize(d) for d in a.shape])

    def ndim(self, I, a):
        t = ZERO
        for d in a.shape:
            t = add(t, d.rank if isinstance(d, Block) else ONE)
        return t

    def shape_value(self, I, a):
        return I.mktup([BSeg(d) if isinstance(d, Block) else One(I.mkint(d)) for d in a.shape])

    def dims_of(self, I, shape):
        """dims of a shape argument"""
        if isinstance(shape, (int, S)):
            return (I.term_i(shape),)
        if isinstance(shape, Arr):
            raise Unsupported('array as a shape')
        out = []
        for s in I.norm_segs(I.segs_of(shape)):
            if isinstance(s, One):
                t = I.term_i(s.v)
                out.append(t)
            elif isinstance(s, BSeg) and s.lin is None and s.fn is None:
                out.append(s.block)
            else:
                raise Unsupported('symbolic shape')
        return tuple(out)

    def ranges(self, shape, idx):
        return [and_(le(ZERO, i), lt(i, dsize(d))) for d, i in zip(shape, idx)]

    def gidx(self, shape, name='i'):
        """generic index tuple"""
        return tuple(ZERO if d is ONE else fresh(name, 'Int') for d in shape)

    def item(self, I, a):
        return I.wrap(a.at(tuple(ZERO for _ in a.shape)), a.kind) if a.kind in 'ifb' else \
            a.at(tuple(ZERO for _ in a.shape))

    def elem(self, I, t, kind):
        """value of one element (a numpy scalar)"""
        if isinstance(t, T):
            return I.wrap(t, kind)
        return t

    def asarr(self, I, v, kind=None):
        """array view of a value"""
        if isinstance(v, Arr):
            return v
        if isinstance(v, (bool, int, float, S)):
            t, k = I.term(v)
            if isinstance(t, float):
                a = self.new(I, (), lambda idx: app('Infinity' if t > 0 else 'NegInfinity', (), 'Real'), 'f')
                a.infinite = t
                return a
            return self.new(I, (), lambda idx: t, k)
        if isinstance(v, (tuple, PList, STup, Iter, PRange)):
            return self.from_seq(I, v)
        if isinstance(v, SymVal):
            raise Unsupported('abstract value as an array')
        if isinstance(v, (Obj, Opaque, PDict, str, SStr, Func)) or v is None:
            return self.new(I, (), lambda idx: v, 'O')
        raise Unsupported('array of %r' % (v,))

    def from_seq(self, I, v):
        segs = I.norm_segs(I.iter_segs(v))
        if not segs:
            return self.new(I, (ZERO,), lambda idx: num(0, 'Real'), 'f')
        if all(isinstance(s, One) for s in segs):
            els = [s.v for s in segs]
            if all(isinstance(x, (bool, int, float, S)) for x in els):
                ts = [I.term(x) for x in els]
                if any(isinstance(t, float) for t, _ in ts):
                    raise Unsupported('array with infinities')
                kind = 'f' if any(k == 'f' for _, k in ts) else 'i' if any(k == 'i' for _, k in ts) else 'b'

                def content(idx):
                    i = idx[0]
                    r = self.cast(ts[-1][0], kind)
                    for j in range(len(ts) - 2, -1, -1):
                        r = ite(eq(i, num(j)), self.cast(ts[j][0], kind), r)
                    return r
                return self.new(I, (num(len(ts)),), content, kind)
            if all(isinstance(x, (Arr, tuple, PList)) for x in els):
                return self.stack(I, [self.asarr(I, x) for x in els])
            if all(isinstance(x, (str, SStr)) for x in els):
                return self.new(I, (num(len(els)),), lambda idx: self.pick(I, els, idx[0]), 'S')
            if any(isinstance(x, (Obj, Opaque, PDict, Func)) or x is None for x in els) and \
                    not any(isinstance(x, Arr) for x in els):
                return self.new(I, (num(len(els)),), lambda idx: self.pick(I, els, idx[0]), 'O')
            raise Unsupported('array of mixed values')
        if len(segs) == 1 and isinstance(segs[0], Rep) and segs[0].cond is None:
            s = segs[0]
            k = fresh('r', 'Int')
            with I.cx.scope([le(ZERO, k), lt(k, s.n)]):
                x = s.fn(k)
                if isinstance(x, (bool, int, float, S)):
                    t, kind = I.term(x)

                    def content(idx):
                        u = I.term(s.fn(idx[0]))[0]
                        return u
                    return self.new(I, (s.n,), content, kind)
                if isinstance(x, (str, SStr)):
                    return self.new(I, (s.n,), lambda idx: s.fn(idx[0]), 'S')
                if isinstance(x, (PList, tuple)):
                    x = self.asarr(I, x)
                    g = s.fn
                    s = Rep(s.n, lambda j: self.asarr(I, g(j)))
                if isinstance(x, Arr):
                    for d in x.shape:
                        if k in fv(d.term if isinstance(d, Block) else d):
                            raise Unsupported('ragged array')
                    return self.new(I, (s.n,) + x.shape, lambda idx: s.fn(idx[0]).at(idx[1:]), x.kind)
                if isinstance(x, (Obj, Opaque)):
                    return self.new(I, (s.n,), lambda idx: s.fn(idx[0]), 'O')
        if len(segs) == 1 and isinstance(segs[0], BSeg):
            raise Unsupported('array of a symbolic shape tuple')
        if any(isinstance(s, Many) for s in segs) and all(
                isinstance(s, One) and isinstance(s.v, (bool, int, float, S, str, SStr)) or isinstance(s, Many) or
                isinstance(s, Rep) and s.cond is None for s in segs):
            # a nested comprehension of scalars: the inner sequences one after the other
            ps = [Rep(s.n, (lambda f: lambda k: self.asarr(I, PList(I.cx, f(k))))(s.fn)) if isinstance(s, Many) else
                  One(self.asarr(I, PList(I.cx, (s,)))) for s in segs]
            if all(len(p.v.shape) == 1 for p in ps if isinstance(p, One)):
                return self.concat1(I, ps)
        if len(segs) > 1 and all(isinstance(s, One) and isinstance(s.v, (bool, int, float, S, str, SStr)) or
                                 isinstance(s, Rep) and s.cond is None for s in segs):
            ps = [self.asarr(I, PList(I.cx, (s,))) for s in segs]
            if all(len(p.shape) == 1 for p in ps):
                return self.concat1(I, [One(p) for p in ps])
        raise Unsupported('array of a symbolic sequence')

    def pick(self, I, els, i):
        if i.op == 'const':
            return els[int(i.val)]
        r = els[-1]
        for j in range(len(els) - 2, -1, -1):
            if els[j] is r:
                continue
            if I.cx.prove(eq(i, num(j))):
                return els[j]
            if I.cx.prove(ne(i, num(j))):
                continue
            r = I.vite(eq(i, num(j)), els[j], r)
        return r

    def cast(self, t, kind):
        if kind in 'if' and t.sort == 'Bool':
            t = ite(t, ONE, ZERO)
        if kind == 'b' and t.sort != 'Bool':
            t = ne(t, ZERO)
        if kind == 'i' and t.sort == 'Real':
            if t.op == 'const' and t.val.denominator == 1:
                return num(int(t.val))
            return app('trunc', (t,), 'Int')
        return t

    def stack(self, I, arrs):
        """new leading axis"""
        sh = arrs[0].shape
        kind = self.common([a.kind for a in arrs])
        for a in arrs[1:]:
            if not self.same_shape(I, a.shape, sh):
                raise Unsupported('ragged array')
        fs = [a.snap() for a in arrs]

        def content(idx):
            i = idx[0]
            if i.op == 'const':
                return self.cast(fs[int(i.val)](idx[1:]), kind)
            r = self.cast(fs[-1](idx[1:]), kind)
            for j in range(len(fs) - 2, -1, -1):
                r = ite(eq(i, num(j)), self.cast(fs[j](idx[1:]), kind), r)
            return r
        return self.new(I, (num(len(arrs)),) + sh, content, kind)

    def common(self, kinds):
        for k in 'OSfib':
            if k in kinds:
                return k
        return 'f'

    def same_dim(self, I, d, e, decide=True):
        if isinstance(d, Block) or isinstance(e, Block):
            if isinstance(d, Block) and isinstance(e, Block):
                if d == e:
                    return True
                return I.cx.decide(eq(d.term, e.term)) if decide else I.cx.prove(eq(d.term, e.term))
            return False
        return d is e or (I.cx.decide(eq(d, e)) if decide else I.cx.prove(eq(d, e)))

    def same_shape(self, I, a, b, decide=True):
        return len(a) == len(b) and all(self.same_dim(I, x, y, decide) for x, y in zip(a, b))

    def broadcast(self, I, sa, sb):
        """common shape and the two index maps"""
        n = max(len(sa), len(sb))
        out, ma, mb = [], [], []
        for j in range(n):
            d = sa[len(sa) - n + j] if len(sa) - n + j >= 0 else None
            e = sb[len(sb) - n + j] if len(sb) - n + j >= 0 else None
            if d is None:
                out.append(e)
                ma.append(None)
                mb.append(j)
                continue
            if e is None:
                out.append(d)
                ma.append(j)
                mb.append(None)
                continue
            if isinstance(d, Block) and isinstance(e, Block):
                if self.same_dim(I, d, e):
                    out.append(d)
                    ma.append(j)
                    mb.append(j)
                    continue
                raise Unsupported('broadcasting of unknown shapes')
            if isinstance(d, Block) or isinstance(e, Block):
                raise Unsupported('broadcasting of an unknown shape')
            if d is e:
                out.append(d)
                ma.append(j)
                mb.append(j)
            elif d is ONE:
                out.append(e)
                ma.append(ZERO)
                mb.append(j)
            elif e is ONE:
                out.append(d)
                ma.append(j)
                mb.append(ZERO)
            elif I.cx.decide(eq(d, e)):
                out.append(d)
                ma.append(j)
                mb.append(j)
            elif I.cx.decide(eq(d, ONE)):
                out.append(e)
                ma.append(ZERO)
                mb.append(j)
            elif I.cx.decide(eq(e, ONE)):
                out.append(d)
                ma.append(j)
                mb.append(ZERO)
            else:
                I.raise_(ValueError, 'operands could not be broadcast together')

        def mk(m):
            def f(idx):
                return tuple(idx[x] if isinstance(x, int) else ZERO for x in m if x is not None)
            return f
        return tuple(out), mk(ma), mk(mb)

    # ------------------------------------------------------------ elementwise
    def elementwise(self, I, arrs, fn, kind):
        """fn(terms) -> term"""
        shape = arrs[0].shape
        maps = [lambda idx: idx]
        for a in arrs[1:]:
            shape, m1, m2 = self.broadcast(I, shape, a.shape)
            maps = [(lambda idx, m=m, m1=m1: m(m1(idx))) for m in maps] + [m2]
        snaps = [a.snap() for a in arrs]
        sh = shape

        def content(idx):
            with I.cx.scope(self.ranges(sh, idx)):
                return fn(*[s(m(idx)) for s, m in zip(snaps, maps)])
        return self.new(I, shape, content, kind)

    def binop(self, I, op, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, float) and x in (INF, -INF):
                if op in ('+', '-') and isinstance(y, Arr):
                    raise Unsupported('arithmetic on infinity')
                raise Unsupported('arithmetic on infinity')
        if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)) or a is None or b is None:
            I.raise_(TypeError, 'unsupported operand types')
        if op == '@':
            return self.matmul(I, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return I.world.opaque_binop(I, op, a, b)
        a, b = self.asarr(I, a), self.asarr(I, b)
        if a.kind in 'OS' or b.kind in 'OS':
            raise Unsupported('arithmetic on object arrays')
        r = self.binop_kind(op, a.kind, b.kind)

        def fn(x, y, ka=a.kind, kb=b.kind):
            t, k = I.s_binop(op, x, y, ka, kb, python=False)
            return t
        out = self.elementwise(I, [a, b], fn, r)
        return self.scalarize(I, out)

    def binop_kind(self, op, ka, kb):
        if op in ('|', '&', '^'):
            return 'b' if ka == kb == 'b' else 'i'
        if op == '/':
            return 'f'
        if 'f' in (ka, kb):
            return 'f'
        if ka == kb == 'b' and op in ('+', '*'):
            return 'b'
        return 'i'

    def scalarize(self, I, a):
        if a.ndim == 0:
            return self.elem(I, a.at(()), a.kind)
        return a

    def unop(self, I, op, a):
        if op == 'not':
            return not I.truth(a)
        if op == '-':
            if a.kind == 'b':
                I.raise_(TypeError, 'numpy boolean negative')
            return self.scalarize(I, self.elementwise(I, [a], lambda x: neg(x), a.kind))
        if op == '+':
            return self.scalarize(I, self.elementwise(I, [a], lambda x: x, a.kind))
        if op == '~':
            if a.kind == 'b':
                return self.scalarize(I, self.elementwise(I, [a], not_, 'b'))
            return self.scalarize(I, self.elementwise(I, [a], lambda x: sub(num(-1), x), 'i'))
        raise Unsupported('unary %s' % op)

    def compare(self, I, op, a, b):
        fa = a if isinstance(a, float) and a in (INF, -INF) else None
        fb = b if isinstance(b, float) and b in (INF, -INF) else None
        if fa is not None or fb is not None:
            arr = b if fa is not None else a
            c = I.s_compare(op, fa if fa is not None else ZERO, fb if fb is not None else ZERO)
            return self.elementwise(I, [arr], lambda x: c, 'b')
        if a is None or b is None or isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            if op in ('==', '!='):
                arr = a if isinstance(a, Arr) else b
                return self.elementwise(I, [arr], lambda x: tm.boolc(op == '!='), 'b')
            I.raise_(TypeError, 'comparison')
        if isinstance(a, (PList, tuple)) and isinstance(b, Arr) or isinstance(b, (PList, tuple)) \
                and isinstance(a, Arr):
            a, b = self.asarr(I, a), self.asarr(I, b)
        if not isinstance(a, (Arr, bool, int, float, S)) or not isinstance(b, (Arr, bool, int, float, S)):
            raise Unsupported('comparison of an array')
        a, b = self.asarr(I, a), self.asarr(I, b)
        if a.kind in 'OS' or b.kind in 'OS':
            raise Unsupported('comparison of object arrays')
        return self.scalarize(I, self.elementwise(I, [a, b], lambda x, y: I.s_compare(op, x, y), 'b'))

    def store_all(self, I, dst, src):
        """dst[...] = src"""
        self.setitem(I, dst, Ellipsis, src)

    # ------------------------------------------------------------ layout
    def linear(self, shape, idx):
        t = ZERO
        for d, i in zip(shape, idx):
            t = add(mul(t, dsize(d)), i)
        return t

    def unlinear(self, I, shape, l):
        """index tuple of the row-major position l"""
        out = []
        for n, d in enumerate(reversed(shape)):
            if n == len(shape) - 1:
                out.append(l)
            else:
                l, r = I.divmod_terms(l, dsize(d))
                out.append(r)
        return tuple(reversed(out))

    def reshape(self, I, a, shape):
        dims = list(self.dims_of(I, shape))
        neg1 = [i for i, d in enumerate(dims) if not isinstance(d, Block) and d.op == 'const' and d.val == -1]
        if neg1:
            rest = mul(ONE, *[dsize(d) for i, d in enumerate(dims) if i != neg1[0]])
            if len(neg1) > 1:
                I.raise_(ValueError, 'can only specify one unknown dimension')
            sz = self.size(I, a)
            if rest is ONE:
                dims[neg1[0]] = sz
            else:
                q, r = I.divmod_terms(sz, rest)
                if not I.cx.decide(eq(r, ZERO)):
                    I.raise_(ValueError, 'cannot reshape')
                dims[neg1[0]] = q
        dims = tuple(dims)
        if dims == a.shape:
            return Arr(dims, a.cell, a.imap, a.kind) if a.concat is None else a
        s0, s1 = self.size(I, a), mul(ONE, *[dsize(d) for d in dims])
        if s0 is not s1 and not I.cx.decide(eq(s0, s1)):
            I.raise_(ValueError, 'cannot reshape array')
        old = a.shape
        m0 = a.imap

        def imap(idx):
            # strip a common prefix of dimensions
            p = 0
            while p < min(len(old), len(dims)) and old[p] == dims[p] and p < len(idx):
                p += 1
            with I.cx.scope(self.ranges(dims, idx)):
                r = idx[:p] + self.unlinear(I, old[p:], self.linear(dims[p:], idx[p:])) if p < len(old) \
                    else idx[:p]
            return m0(r) if m0 is not None else r
        r = Arr(dims, a.cell, imap, a.kind)
        if len(dims) == 1 and a.concat is not None:
            r.concat = a.concat
        return r

    def flat_copy(self, I, a):
        if a.ndim == 1:
            r = self.new(I, (self.size(I, a),), a.snap(), a.kind)
            r.concat = a.concat
            return r
        f = a.snap()
        sh = a.shape
        n = self.size(I, a)

        def content(idx):
            with I.cx.scope([le(ZERO, idx[0]), lt(idx[0], n)]):
                return f(self.unlinear(I, sh, idx[0]))
        return self.new(I, (n,), content, a.kind)

    def transpose(self, I, a, axes=None):
        if a.ndim <= 1 and not (a.ndim == 1 and isinstance(a.shape[0], Block)):
            return a
        if any(isinstance(d, Block) for d in a.shape):
            raise Unsupported('transpose of an unknown shape')
        n = a.ndim
        axes = list(axes) if axes is not None else list(range(n))[::-1]
        m0 = a.imap

        def imap(idx):
            r = [None] * n
            for j, ax in enumerate(axes):
                r[ax] = idx[j]
            r = tuple(r)
            return m0(r) if m0 is not None else r
        return Arr([a.shape[x] for x in axes], a.cell, imap, a.kind)

    # ------------------------------------------------------------ indexing
    def index_items(self, I, a, i):
        items = list(i) if isinstance(i, tuple) else \
            [x for x in I.norm_segs(i.segs)] if isinstance(i, (ItemProd, STup)) else [i]
        out = []
        for x in items:
            if isinstance(x, One):
                x = x.v
            if isinstance(x, ItemProd):
                out.extend(y.v if isinstance(y, One) else y for y in x.segs)
            elif isinstance(x, BSeg):
                out.append(x)
            elif isinstance(x, (PList,)):
                out.append(self.asarr(I, x))
            else:
                out.append(x)
        return out

    def norm_int(self, I, x, d):
        t = I.term_i(x)
        if t.op == 'const' and t.val < 0:
            t = add(d, t)
            if not I.cx.decide(le(ZERO, t)):
                I.raise_(IndexError, 'index out of bounds')
            return t
        if I.cx.prove(and_(le(ZERO, t), lt(t, d))):
            return t
        if not I.cx.decide(lt(t, d)):
            I.raise_(IndexError, 'index out of bounds')
        if I.cx.decide(le(ZERO, t)):
            return t
        if not I.cx.decide(le(neg(d), t)):
            I.raise_(IndexError, 'index out of bounds')
        return add(t, d)

    def norm_slice(self, I, s, d):
        """(lo, length, step)"""
        step = s.step if s.step is not None else 1
        if step == -1 and s.lo is None and s.hi is None:
            return sub(d, ONE), d, -1
        if step != 1:
            raise Unsupported('slice step')

        def clip(v, default):
            if v is None:
                return default
            t = I.term_i(v)
            if t.op == 'const' and t.val < 0:
                t = add(d, t)
                if I.cx.prove(le(ZERO, t)):
                    return t
                return ite(lt(t, ZERO), ZERO, t)
            if I.cx.prove(and_(le(ZERO, t), le(t, d))):
                return t
            if I.cx.prove(le(d, t)):
                return d
            t2 = ite(lt(t, ZERO), add(t, d), t)
            return ite(lt(t2, ZERO), ZERO, ite(lt(d, t2), d, t2))
        lo, hi = clip(s.lo, ZERO), clip(s.hi, d)
        n = sub(hi, lo)
        if not I.cx.prove(le(ZERO, n)):
            n = ite(le(ZERO, n), n, ZERO)
        return lo, n, 1

    def plan(self, I, a, i):
        """(parts, adv): per base dim ('int', t) | ('slice', lo, n, step, d) | ('arr', A) | ('mask', A, ndims)
        interleaved with ('new',)"""
        items = self.index_items(I, a, i)
        nd = 0
        for x in items:
            if x is None or x is Ellipsis:
                continue
            nd += len(x.shape) if isinstance(x, Arr) and x.kind == 'b' else 1
        if Ellipsis in [x for x in items if x is Ellipsis]:
            p = [j for j, x in enumerate(items) if x is Ellipsis]
            if len(p) > 1:
                I.raise_(IndexError, 'an index can only have a single ellipsis')
            items = items[:p[0]] + [Slice(None, None, None)] * (len(a.shape) - nd) + items[p[0] + 1:]
        elif nd < len(a.shape):
            items = items + [Slice(None, None, None)] * (len(a.shape) - nd)
        if nd > len(a.shape):
            if any(isinstance(d, Block) for d in a.shape):
                raise Unsupported('indexing an unknown shape')
            I.raise_(IndexError, 'too many indices')
        parts = []
        k = 0
        for x in items:
            if x is None:
                parts.append(('new',))
                continue
            d = a.shape[k]
            if isinstance(x, Slice):
                if isinstance(d, Block):
                    if x.lo is None and x.hi is None and x.step is None:
                        parts.append(('slice', ZERO, d, 1, d))
                    else:
                        raise Unsupported('slice of an unknown shape')
                else:
                    lo, n, st = self.norm_slice(I, x, d)
                    parts.append(('slice', lo, n, st, d))
                k += 1
            elif isinstance(x, BSeg):
                if not isinstance(d, Block) or not self.same_dim(I, d, x.block, decide=False):
                    raise Unsupported('index tuple of another shape')
                parts.append(('int', x.lin))
                k += 1
            elif isinstance(x, Arr) and x.kind == 'b' and x.ndim > 0:
                m = len(x.shape)
                if not self.same_shape(I, x.shape, a.shape[k:k + m]):
                    I.raise_(IndexError, 'boolean index did not match')
                parts.append(('mask', x, m))
                k += m
            elif isinstance(x, Arr) and x.kind == 'i' and x.ndim > 0:
                if isinstance(d, Block):
                    raise Unsupported('fancy index into an unknown shape')
                parts.append(('arr', x, d))
                k += 1
            elif isinstance(x, (int, S, Arr)) and not isinstance(x, bool):
                if isinstance(x, Arr):
                    if x.kind != 'i':
                        I.raise_(IndexError, 'arrays used as indices must be of integer (or boolean) type')
                    if x.ndim == 0:
                        x = self.elem(I, x.at(()), 'i')
                if isinstance(x, S) and x.kind == 'f':
                    I.raise_(IndexError, 'only integers are valid indices')
                if isinstance(d, Block):
                    raise Unsupported('index into an unknown shape')
                parts.append(('int', self.norm_int(I, x, d)))
                k += 1
            elif isinstance(x, float):
                I.raise_(IndexError, 'only integers are valid indices')
            else:
                raise Unsupported('index %r' % (x,))
        return parts

    def check_bounds(self, I, x, d):
        """all entries of an index array within [-d, d); fact when negatives are excluded"""
        idx = self.gidx(x.shape)
        with I.cx.scope(self.ranges(x.shape, idx)):
            t = x.at(idx)
            if I.cx.prove(and_(le(ZERO, t), lt(t, d))):
                return True
        f = x.snap()
        if len(x.shape) == 1:
            k = tm.scratch()
            with I.cx.scope(self.ranges(x.shape, (k,))):
                u = f((k,))
            bad = ex_(ZERO, dsize(x.shape[0]), k, not_(and_(le(neg(d), u), lt(u, d))))
            if I.cx.decide(bad):
                I.raise_(IndexError, 'index out of bounds')
            return I.cx.prove(not_(ex_(ZERO, dsize(x.shape[0]), k, lt(u, ZERO))))
        raise Unsupported('index array bounds')

    def fix_neg(self, I, t, d):
        if I.cx.prove(le(ZERO, t)):
            return t
        return ite(lt(t, ZERO), add(t, d), t)

    def mask_terms(self, I, m):
        """(lam of the mask over linear positions, count, size)"""
        n = self.size(I, m)
        k = tm.scratch()
        with I.cx.scope([le(ZERO, k), lt(k, n)]):
            b = m.at(self.unlinear(I, m.shape, k))
        cnt = sum_(ZERO, n, k, ite(b, ONE, ZERO))
        return lam_(n, k, ite(b, ONE, ZERO)), cnt, n

    def getitem(self, I, a, i):
        if isinstance(a.kind, str) and isinstance(i, (str, SStr)):
            I.raise_(IndexError, 'only integers are valid indices')
        if isinstance(i, bool) or isinstance(i, S) and i.kind == 'b' or \
                isinstance(i, Arr) and i.kind == 'b' and not i.shape:
            # one boolean for the whole array: a leading axis of length one or zero
            cond = TRUE if i is True else FALSE if i is False else i.t if isinstance(i, S) else i.snap()(())
            f0 = a.snap()
            return self.new(I, (ite(cond, ONE, ZERO),) + tuple(a.shape), lambda idx: f0(tuple(idx[1:])), a.kind)
        parts = self.plan(I, a, i)
        adv = [p for p in parts if p[0] in ('arr', 'mask')]
        if not adv:
            shape = []
            for p in parts:
                if p[0] == 'new':
                    shape.append(ONE)
                elif p[0] == 'slice':
                    shape.append(p[2])
            m0 = a.imap

            def imap(idx):
                out = []
                j = 0
                for p in parts:
                    if p[0] == 'int':
                        out.append(p[1])
                    elif p[0] == 'new':
                        j += 1
                    else:
                        x = idx[j]
                        j += 1
                        out.append(x if p[1] is ZERO else add(p[1], x) if p[3] == 1 else sub(p[1], x))
                r = tuple(out)
                return m0(r) if m0 is not None else r
            if not shape:
                return self.elem(I, a.cell.content(imap(())), a.kind)
            r = Arr(shape, a.cell, imap, a.kind)
            if a.concat is not None and len(parts) == 1 and parts[0][0] == 'slice' and \
                    parts[0][1] is ZERO and parts[0][2] is a.shape[0]:
                r.concat = a.concat
            return r
        f = a.snap()
        if len(adv) == 1 and adv[0][0] == 'mask':
            m = adv[0][1]
            if not all(p is adv[0] or p[0] == 'slice' and p[2] == p[4] for p in parts):
                raise Unsupported('mixed boolean index')
            L, cnt, n = self.mask_terms(I, m)
            pos = [j for j, p in enumerate(parts) if p is adv[0]][0]
            if pos != 0:
                raise Unsupported('boolean index of a later axis')
            rest = a.shape[len(m.shape):]

            def content(idx):
                with I.cx.scope([le(ZERO, idx[0]), lt(idx[0], cnt)]):
                    s = app('SEL', (L, idx[0]), 'Int')
                    with I.cx.scope([le(ZERO, s), lt(s, n)]):
                        return f(self.unlinear(I, m.shape, s) + tuple(idx[1:]))
            return self.new(I, (cnt,) + rest, content, a.kind)
        if any(p[0] == 'mask' for p in adv):
            raise Unsupported('mixed boolean index')
        ish = adv[0][1].shape
        nonneg = []
        for p in adv:
            if not self.same_shape(I, p[1].shape, ish):
                raise Unsupported('broadcast index arrays')
            nonneg.append(self.check_bounds(I, p[1], p[2]))
        first = [j for j, p in enumerate(parts) if p[0] == 'arr'][0]
        others = [p for p in parts if p[0] in ('slice', 'new')]
        if len(adv) > 1:
            js = [j for j, p in enumerate(parts) if p[0] == 'arr']
            if js != list(range(js[0], js[0] + len(js))):
                raise Unsupported('separated index arrays')
        if any(p[0] == 'int' for p in parts) and len(adv) >= 1 and others:
            raise Unsupported('index arrays with integers')
        shape = []
        for j, p in enumerate(parts):
            if p[0] == 'arr':
                if j == first:
                    shape.extend(ish)
            elif p[0] == 'slice':
                shape.append(p[2])
            elif p[0] == 'new':
                shape.append(ONE)
        ni = len(ish)
        snaps = {id(p): p[1].snap() for p in adv}

        def content(idx):
            out = []
            j = 0
            taken = False
            ii = None
            for p in parts:
                if p[0] == 'arr':
                    if not taken:
                        ii = idx[j:j + ni]
                        j += ni
                        taken = True
                elif p[0] in ('slice', 'new'):
                    j += 1
            j = 0
            taken = False
            with I.cx.scope(self.ranges(shape, idx)):
                for p in parts:
                    if p[0] == 'arr':
                        if not taken:
                            j += ni
                            taken = True
                        out.append(self.fix_neg(I, snaps[id(p)](ii), p[2]))
                    elif p[0] == 'int':
                        out.append(p[1])
                    elif p[0] == 'new':
                        j += 1
                    else:
                        x = idx[j]
                        j += 1
                        out.append(x if p[1] is ZERO else add(p[1], x) if p[3] == 1 else sub(p[1], x))
                return f(tuple(out))
        return self.new(I, shape, content, a.kind)

    def add_at(self, I, a, i, v):
        """numpy.add.at(a, i, v) for a one-dimensional array of positions along the first axis: unbuffered, so
        every position gets the sum over the entries naming it"""
        x, src = self.asarr(I, i), self.asarr(I, v)
        if a.kind in 'OS' or src.kind in 'OS' or a.cell.alias_of is not None or a.imap is not None \
                or x.kind != 'i' or x.ndim != 1 or a.ndim < 1:
            raise Unsupported('numpy.add.at of these arguments')
        if a.kind != 'f' and src.kind != a.kind:
            raise Unsupported('numpy.add.at kinds')
        d = dsize(a.shape[0])
        self.check_bounds(I, x, d)
        shape = tuple(x.shape) + tuple(a.shape[1:])
        shp, m1, m2 = self.broadcast(I, shape, src.shape)
        if len(shp) != len(shape) or not self.same_shape(I, shp, shape):
            I.raise_(ValueError, 'could not broadcast input array')
        xf, sf, old, kind, n = x.snap(), src.snap(), a.cell.content, a.kind, x.shape[0]

        def content(idx):
            k = tm.scratch()
            with I.cx.scope([le(ZERO, k), lt(k, n)]):
                pos = (k,) + tuple(idx[1:])
                u = self.fix_neg(I, xf((k,)), d)
                t = self.cast(sf(m2(pos)), kind)
            return add(old(idx), sum_(ZERO, n, k, ite(eq(u, idx[0]), t, num(0, t.sort))))
        a.cell.content = content
        a.concat = None

    def setitem(self, I, a, i, v):
        if a.kind in 'OS':
            raise Unsupported('store into an object array')
        if a.cell.alias_of is not None:
            raise Unsupported('store through an instantiated array')
        parts = self.plan(I, a, i)
        adv = [p for p in parts if p[0] in ('arr', 'mask')]
        inf = isinstance(v, float) and (v in (INF, -INF) or v != v)
        src = self.asarr(I, v) if not inf else None
        if inf:
            t, k = (app('NaN', (), 'Real'), 'f') if v != v else (app('Infinity' if v > 0 else 'NegInfinity',
                                                                     (), 'Real'), 'f')
            src = self.new(I, (), lambda idx: t, 'f')
        if src.kind in 'OS':
            raise Unsupported('store of an object')
        # shape of the target region
        shape = []
        ish = None
        for p in parts:
            if p[0] == 'slice':
                shape.append(p[2])
            elif p[0] == 'new':
                shape.append(ONE)
            elif p[0] == 'arr':
                if ish is None:
                    ish = p[1].shape
                    shape.extend(ish)
                elif not self.same_shape(I, p[1].shape, ish):
                    raise Unsupported('broadcast index arrays')
                if not self.check_bounds(I, p[1], p[2]):
                    pass
            elif p[0] == 'mask':
                shape.append(None)
        if any(p[0] == 'mask' for p in parts):
            if len(adv) != 1 or src.ndim != 0 or parts[0][0] != 'mask':
                raise Unsupported('masked store')
            m = adv[0][1].snap()
            nm = adv[0][2]
            s0 = src.at(())
            old = a.cell.content
            if a.imap is not None:
                raise Unsupported('masked store through a view')
            kind = a.kind
            a.cell.content = lambda idx: ite(m(idx[:nm]), self.cast(s0, kind), old(idx))
            return
        # broadcast of the source to the region
        shp, m1, m2 = self.broadcast(I, tuple(shape), src.shape)
        if len(shp) != len(shape) or not self.same_shape(I, shp, shape):
            I.raise_(ValueError, 'could not broadcast input array')
        sf = src.snap()
        kind = a.kind
        if a.imap is not None:
            raise Unsupported('store through a view')
        old = a.cell.content
        arrs = [p for p in parts if p[0] == 'arr']
        if arrs:
            if len(arrs[0][1].shape) != 1:
                raise Unsupported('store at index arrays of several dimensions')
            many = None
            if len(arrs) > 1:
                js = [j for j, p in enumerate(parts) if p[0] == 'arr']
                if js != list(range(js[0], js[0] + len(js))):
                    raise Unsupported('separated index arrays')
                j = tm.scratch()
                xn = arrs[0][1].shape[0]
                with I.cx.scope([le(ZERO, j), lt(j, xn)]):
                    us = [self.fix_neg(I, p[1].snap()((j,)), p[2]) for p in arrs]
                many = self.invert_many(I, j, us)
                if many is None:
                    raise Unsupported('store at several index arrays')
            xf = arrs[0][1].snap()
            xn = arrs[0][1].shape[0]
            xd = arrs[0][2]

        def content(idx):
            conds = []
            pos = []
            k = 0
            for p in parts:
                if p[0] == 'int':
                    conds.append(eq(idx[k], p[1]))
                    k += 1
                elif p[0] == 'new':
                    pos.append(ZERO)
                elif p[0] == 'arr' and many is not None:
                    if p is arrs[0]:
                        t, c = many(idx[k:k + len(arrs)])
                        conds.append(and_(le(ZERO, t), lt(t, xn), c))
                        pos.append(t)
                    k += 1
                elif p[0] == 'arr':
                    j = tm.scratch()
                    with I.cx.scope([le(ZERO, j), lt(j, xn)]):
                        u = self.fix_neg(I, xf((j,)), xd)
                    e = ex_(ZERO, xn, j, eq(u, idx[k]))
                    conds.append(e)
                    # the last position storing there
                    w = app('LASTPOS', (lam_(xn, j, u), idx[k]), 'Int')
                    pos.append(w)
                    k += 1
                else:
                    lo, n, st, d = p[1:]
                    if n == d:
                        pos.append(idx[k])
                    elif st == 1:
                        conds.append(and_(le(lo, idx[k]), lt(idx[k], add(lo, n))))
                        pos.append(sub(idx[k], lo))
                    else:
                        conds.append(and_(le(ZERO, sub(lo, idx[k])), lt(sub(lo, idx[k]), n)))
                        pos.append(sub(lo, idx[k]))
                    k += 1
            c = and_(*conds)
            if c is FALSE or I.cx.prove(not_(c), effort=0):
                return old(idx)
            with I.cx.scope([c] + self.ranges(shape, tuple(pos))):
                new = self.cast(sf(m2(m1(tuple(pos))) if False else m2(tuple(pos))), kind)
            if c is TRUE or I.cx.prove(c, effort=0):
                return new
            return ite(c, new, old(idx))
        a.cell.content = content
        a.concat = None

    def invert_many(self, I, j, us):
        """for an injective j -> (us): a function from the target position to (j, condition), or None"""
        for a, u in enumerate(us):
            off = sub(u, j)
            if j not in tm.subterms(off):
                def inv(at, a=a, off=off):
                    t = sub(at[a], off)
                    return t, and_(*[eq(tm.subst(v, {j: t}), at[b]) for b, v in enumerate(us) if b != a])
                return inv
        rows = [(a, u) for a, u in enumerate(us) if u.op == 'app' and u.val == 'trow']
        for a, u in rows:
            off = sub(u.args[0], j)
            col = [b for b, v in enumerate(us) if v.op == 'app' and v.val == 'tcol' and v.args == u.args]
            if not col or j in tm.subterms(off):
                continue
            b = col[0]

            def inv(at, a=a, b=b, off=off):
                r, c = at[a], at[b]
                t = sub(add(mul(num(tm.Fraction(1, 2)), r, add(r, ONE)), c), off)
                rest = [eq(tm.subst(v, {j: t}), at[d]) for d, v in enumerate(us) if d not in (a, b)]
                return t, and_(le(ZERO, c), le(c, r), *rest)
            return inv
        return None

    # ------------------------------------------------------------ joining
    def hstack(self, I, v):
        """concatenation of 1-d pieces (or along axis 1 of 2-d pieces)"""
        if isinstance(v, Arr):
            n = v.shape[0]
            if isinstance(n, Block):
                raise Unsupported('hstack of an unknown shape')
            segs = [Rep(n, lambda k: self.getitem(I, v, S(k)))] if n.op != 'const' else \
                [One(self.getitem(I, v, j)) for j in range(int(n.val))]
        else:
            segs = I.norm_segs(I.iter_segs(v))
        self.nonempty(I, segs)
        return self.concat1(I, segs)

    def nonempty(self, I, segs):
        if not any(isinstance(s, One) for s in segs):
            n = add(ZERO, *[I.seglen(s) for s in segs])
            if not I.cx.prove(lt(ZERO, n)) and not I.cx.decide(lt(ZERO, n)):
                I.raise_(ValueError, 'need at least one array to concatenate')

    def piece(self, I, x):
        if isinstance(x, (PList, STup, tuple)):
            if isinstance(x, PList) and len(x.segs) == 1 and isinstance(x.segs[0], Rep) and x.segs[0].cond is None:
                s = x.segs[0]
                k = fresh('h', 'Int')
                with I.cx.scope([le(ZERO, k), lt(k, s.n)]):
                    v = s.fn(k)
                if isinstance(v, (str, SStr)):
                    return self.new(I, (s.n,), lambda idx: s.fn(idx[0]), 'S')
            x = self.asarr(I, x)
        elif not isinstance(x, Arr):
            x = self.asarr(I, x)
        if x.ndim == 0:
            f = x.snap()
            return self.new(I, (ONE,), lambda idx: f(()), x.kind)
        return x

    def concat1(self, I, segs):
        parts = []
        kinds = []
        two = None
        for s in segs:
            if isinstance(s, One):
                x = self.piece(I, s.v)
                if len(x.shape) == 2:
                    two = True
                    parts.append(x)
                    continue
                if len(x.shape) != 1 or isinstance(x.shape[0], Block):
                    raise Unsupported('hstack of %s' % (x,))
                if x.concat is not None:
                    parts.extend(x.concat)
                else:
                    parts.append(('one', x.shape[0], x.snap()))
                kinds.append(x.kind)
            elif isinstance(s, Rep):
                k = fresh('h', 'Int')
                fs = [le(ZERO, k), lt(k, s.n)]
                if s.cond is not None:
                    fs.append(s.cond(k))
                with I.cx.scope(fs):
                    x = self.piece(I, s.fn(k))
                    kinds.append(x.kind)
                    if len(x.shape) != 1:
                        raise Unsupported('hstack of a symbolic number of matrices')
                parts.append(self.rep_part(I, s))
            else:
                raise Unsupported('hstack of a nested sequence')
        if two:
            return self.concatenate(I, parts, 1)
        kind = self.common(kinds)
        total = ZERO
        for p in parts:
            total = add(total, self.part_len(p))
        parts = [p if p[0] == 'rep' else p for p in parts]
        castk = (lambda t: self.cast(t, kind)) if kind in 'ifb' else (lambda t: t)

        def content(idx):
            return self.at_concat(I, parts, idx[0], castk, total)
        r = self.new(I, (total,), content, kind)
        r.concat = parts
        return r

    def rep_part(self, I, s):
        def ln(k):
            fs = [le(ZERO, k), lt(k, s.n)]
            c = s.cond(k) if s.cond is not None else TRUE
            with I.cx.scope(fs + [c]):
                n = self.piece(I, s.fn(k)).shape[0]
            if c is TRUE:
                return n
            with I.cx.scope(fs + [not_(c)]):
                if I.cx.prove(eq(n, ZERO)):
                    return n
            return ite(c, n, ZERO)

        def el(k, x):
            fs = [le(ZERO, k), lt(k, s.n), le(ZERO, x)]
            if s.cond is not None:
                fs.append(s.cond(k))
            with I.cx.scope(fs):
                p = self.piece(I, s.fn(k))
                with I.cx.scope([lt(x, p.shape[0])]):
                    return p.at((x,))
        return ('rep', s.n, ln, el)

    def part_len(self, p):
        if p[0] == 'one':
            return p[1]
        k = tm.scratch()
        return sum_(ZERO, p[1], k, p[2](k))

    def prefix_len(self, p, j):
        k = tm.scratch()
        return sum_(ZERO, j, k, p[2](k))

    def at_concat(self, I, parts, i, castk, total):
        """element at position i of a concatenation"""
        off = ZERO
        r = []
        for n, p in enumerate(parts):
            ln = self.part_len(p)
            last = n == len(parts) - 1
            inside = and_(le(off, i), lt(i, add(off, ln)))
            if inside is FALSE:
                off = add(off, ln)
                continue
            if p[0] == 'rep':
                found = self.locate(I, p, sub(i, off))
                if found is not None:
                    return castk(found)
            if I.cx.prove(inside):
                if p[0] == 'one':
                    return castk(p[2]((sub(i, off),)))
                return castk(self.generic_locate(I, p, sub(i, off)))
            if not I.cx.prove(not_(inside)):
                r.append((lt(i, add(off, ln)), inside, p, off))
            off = add(off, ln)
        if not r:
            return app('outside', (i,), 'Int')
        res = None
        for c, inside, p, off in reversed(r):
            with I.cx.scope([inside]):
                v = p[2]((sub(i, off),)) if p[0] == 'one' else self.generic_locate(I, p, sub(i, off))
            v = castk(v)
            if res is None:
                res = v
            elif isinstance(v, T) and isinstance(res, T):
                res = ite(c, v, res)
            else:
                res = I.vite(c, v, res)
        return res

    def locate(self, I, p, x):
        """element at position x of a repeated part, when x is syntactically prefix(j) + y"""
        _, n, ln, el = p
        k = tm.scratch()
        with I.cx.scope([le(ZERO, k), lt(k, n)]):
            L = ln(k)
        if k not in fv(L):
            # equal lengths: division
            if x.op == 'const' and L.op == 'const' and L.val > 0 or I.cx.prove(lt(ZERO, L)):
                q, r = I.divmod_terms(x, L)
                if not (q.op == 'app' and q.val == 'idiv'):
                    if I.cx.prove(and_(le(ZERO, q), lt(q, n))):
                        return el(q, r)
            return None
        px = tm.poly_of(x)
        seen = set()
        for mono, c in px.items():
            for s in [a for a, e in mono if a.op == 'sum' and e == 1]:
                if s in seen:
                    continue
                seen.add(s)
                j = s.args[1]
                pl = self.prefix_len(p, j)
                if s.args[0] is ZERO and s in tm.subterms(pl):
                    y = sub(x, pl)
                    if s in tm.subterms(y):
                        continue
                    if I.cx.prove(and_(le(ZERO, j), lt(j, n), le(ZERO, y))) and \
                            I.cx.prove(lt(y, subst(L, {k: j}))):
                        return el(j, y)
        # the first part
        y = x
        if I.cx.prove(and_(lt(ZERO, n), le(ZERO, y), lt(y, subst(L, {k: ZERO})))):
            return el(ZERO, y)
        return None

    def generic_locate(self, I, p, x):
        """introduce the part index: PART(lengths, x)"""
        _, n, ln, el = p
        k = tm.scratch()
        with I.cx.scope([le(ZERO, k), lt(k, n)]):
            L = ln(k)
        if k not in fv(L):
            q, r = app('idiv', (x, L), 'Int'), app('imod', (x, L), 'Int')
            return el(q, r)
        lam = lam_(n, k, L)
        j = app('PART', (lam, x), 'Int')
        return el(j, sub(x, self.prefix_len(p, j)))

    def concatenate(self, I, parts, axis):
        parts = [self.asarr(I, p) for p in parts]
        nd = len(parts[0].shape)
        if any(len(p.shape) != nd for p in parts):
            if any(isinstance(d, Block) for p in parts for d in p.shape):
                raise Unsupported('concatenate')
            I.raise_(ValueError, 'all the input array dimensions must match')
        if axis < 0:
            axis += nd
        if nd == 1:
            return self.concat1(I, [One(p) for p in parts])
        for p in parts[1:]:
            for j in range(nd):
                if j != axis and not self.same_dim(I, p.shape[j], parts[0].shape[j]):
                    I.raise_(ValueError, 'dimensions must match exactly')
        tot = add(ZERO, *[dsize(p.shape[axis]) for p in parts])
        kind = self.common([p.kind for p in parts])
        snaps = [p.snap() for p in parts]
        lens = [dsize(p.shape[axis]) for p in parts]
        shape = parts[0].shape[:axis] + (tot,) + parts[0].shape[axis + 1:]

        def content(idx):
            i = idx[axis]
            off = ZERO
            cases = []
            for s, n in zip(snaps, lens):
                inside = and_(le(off, i), lt(i, add(off, n)))
                up = lt(i, add(off, n))
                if up is TRUE or up is not FALSE and I.cx.prove(up):
                    with I.cx.scope(self.ranges(shape, idx) + [le(off, i)]):
                        cases.append((None, self.cast(s(idx[:axis] + (sub(i, off),) + idx[axis + 1:]), kind)))
                    break
                if up is not FALSE and not I.cx.prove(not_(up)):
                    with I.cx.scope(self.ranges(shape, idx) + [inside]):
                        cases.append((up, self.cast(s(idx[:axis] + (sub(i, off),) + idx[axis + 1:]), kind)))
                off = add(off, n)
            if not cases:
                return app('outside', (i,), SORT[kind])
            r = cases[-1][1]
            for c, v in reversed(cases[:-1]):
                r = ite(c, v, r)
            return r
        return self.new(I, shape, content, kind)

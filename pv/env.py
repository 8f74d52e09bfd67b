"""What a specification driver sees: symbolic inputs, calls of the interpreted code, obligations."""
from . import terms as tm, prover
from .terms import T, TRUE, FALSE, ZERO, ONE, num, eq, le, lt, and_, or_, not_, implies, ite, add, sub, mul, app
from .values import *
from .interp import Interp, Ctx, INF, Obligation
from .world import World


class SpecError(Exception):
    pass


class Env:
    def __init__(self, run, prefix, src_override=None):
        self.run = run
        tm.reset_fresh()
        self.cx = Ctx(prefix, run)
        self.w = World(src_override)
        self.I = Interp(self.cx, self.w)
        self.np = self.w.np
        self.entry = set()
        self.snaps = []
        self.cx.rewriter = lambda g: self.rewrite(g, self.divide)

    # ------------------------------------------------------------ reaching the code
    def mod(self, name):
        return self.w.module(self.I, 'paragami.' + name if not name.startswith('paragami') else name)

    def cls(self, mod, name):
        m = self.mod(mod)
        if name not in m.ns:
            raise SpecError('%s has no %s' % (mod, name))
        return m.ns[name]

    get = cls

    def call(self, f, *args, **kw):
        n = getattr(f, 'name', None)
        if n:
            self.entry.add(n)
        return self.I.call(f, list(args), kw)

    def meth(self, o, name, *args, **kw):
        if isinstance(o, Obj):
            self.entry.add('%s.%s' % (o.cls.name, name))
        return self.I.call(self.I.getattr(o, name), list(args), kw)

    def attr(self, o, name):
        return self.I.getattr(o, name)

    def attempt(self, f, *args, **kw):
        """(value, None) or (None, exception class)"""
        try:
            return f(*args, **kw), None
        except PyRaise as e:
            return None, e.exc

    def raises(self, name, classes, f, *args, **kw):
        """obligation: the call raises one of the classes"""
        try:
            f(*args, **kw)
        except PyRaise as e:
            self.check(name, self.I.exc_matches(e.exc, classes), 'raised %r' % (e.exc,))
            return e.exc
        self.cx.fail(name, 'no exception was raised')
        return None

    # ------------------------------------------------------------ inputs
    def int(self, name, lo=0, hi=None):
        t = tm.var(name, 'Int')
        if lo is not None:
            self.cx.assume(le(num(lo), t))
        if hi is not None:
            self.cx.assume(le(t, num(hi)))
        return S(t)

    def real(self, name):
        return S(tm.var(name, 'Real'))

    def bool(self, name):
        return S(tm._mk('var', name, (), 'Bool'))

    def block(self, name, rank=None):
        b = Block(tm.var(name, 'U:Block'))
        self.cx.assume(le(ZERO, b.size))
        self.cx.assume(le(ONE, b.rank))
        return b

    def dim(self, d):
        return d if isinstance(d, Block) else (num(d) if isinstance(d, int) else d.t if isinstance(d, S) else d)

    def array(self, name, shape, kind='f', where=None):
        """fresh array; where(idx, term) -> fact about each entry"""
        dims = [self.dim(d) for d in shape]
        sort = {'f': 'Real', 'i': 'Int', 'b': 'Bool'}[kind]
        a = self.np.new(self.I, dims, lambda idx: tm.app(name, tuple(idx), sort), kind)
        a.cell.name = name
        if where is not None:
            self.cx.assume(self.forall_idx(dims, lambda idx: where(idx, tm.app(name, tuple(idx), sort))))
        return a

    def forall_idx(self, dims, body):
        ks = [tm.scratch() for _ in dims]
        b = body(tuple(ks))
        for d, k in reversed(list(zip(dims, ks))):
            b = tm.all_(ZERO, dsize(d), k, b)
        return b

    def shape(self, a):
        return self.mktup([self.dimval(d) for d in a.shape])

    def shape_of(self, dims):
        """the tuple given by the user as a shape: ints, or one opaque group of dimensions"""
        segs = []
        for d in dims:
            segs.append(BSeg(d) if isinstance(d, Block) else One(self.I.mkint(self.dim(d))))
        return self.I.mktup(segs)

    # ------------------------------------------------------------ obligations
    def assume(self, t):
        self.cx.assume(t.t if isinstance(t, S) else t)

    def check(self, name, cond, note=''):
        if isinstance(cond, S):
            cond = cond.t
        if isinstance(cond, bool):
            cond = tm.boolc(cond)
        return self.cx.oblige(name, cond, note)

    def true(self, name, v, note=''):
        """obligation: the value is truthy"""
        if isinstance(v, Arr) and not v.shape:
            v = self.np.item(self.I, v)
        if isinstance(v, bool):
            return self.check(name, v, note)
        if isinstance(v, S) and v.t.sort == 'Bool':
            return self.check(name, v.t, note)
        return self.check(name, False, 'got %r' % (v,))

    def false(self, name, v, note=''):
        if isinstance(v, bool):
            return self.check(name, not v, note)
        if isinstance(v, S) and v.t.sort == 'Bool':
            return self.check(name, not_(v.t), note)
        return self.check(name, False, 'got %r' % (v,))

    def decide(self, t):
        return self.cx.decide(t.t if isinstance(t, S) else t)

    def fail(self, name, note=''):
        self.cx.fail(name, note)

    def divide(self, x):
        """(b*q + r) div b and mod b, for an r within range"""
        if x.op == 'app' and x.val == 'ELT':
            return self.rewrite(tm.open_elt(*x.args), self.divide)
        if x.op == 'ite':
            if self.cx.prove(x.args[0], effort=1):
                return x.args[1]
            if self.cx.prove(not_(x.args[0]), effort=1):
                return x.args[2]
        if x.op == 'app' and x.val in ('FOLD', 'FOLDA'):
            from .sympat import lam_body
            w = lam_body(x.args[2], 'FLAT', x.args[0], x.args[1])
            if w is not None and self.cx.prove(app('VALID', (x.args[0], w, TRUE), 'Bool')):
                # C01 of the member: folding the flat form of a valid value
                return w if x.val == 'FOLD' else tm.open_binder(w, x.args[3]) if w.op == 'lam' else None
            return None
        if x.op == 'app' and x.val == 'PART' and x.args[0].op == 'lam':
            from .deps import part_index
            l = x.args[0]
            k = tm.scratch()
            body = tm.open_binder(l, k)
            y = part_index(self.I, l.args[0], lambda j: tm.subst(body, {k: j}), x.args[1])
            return None if y is x else y
        if not (x.op == 'app' and x.val in ('idiv', 'imod')):
            return None
        q, r = self.I.divmod_terms(*x.args)
        y = q if x.val == 'idiv' else r
        return None if y is x else y

    def rewrite(self, t, fn):
        """replace sub-terms by fn(sub-term) -> term or None, each under the conditions it stands in"""
        memo = {}

        def go(x, depth):
            key = (x, depth)
            if key in memo:
                return memo[key]
            if not x.args:
                r = x
            elif x.op == 'ite':
                c = go(x.args[0], depth)
                with self.cx.scope([c]):
                    a = go(x.args[1], depth + (c,))
                with self.cx.scope([not_(c)]):
                    b = go(x.args[2], depth + (not_(c),))
                r = ite(c, a, b)
            elif x.op in tm.BINDERS:
                k = tm.scratch()
                pre = [go(q, depth) for q in x.args[:-1]]
                rng = [le(pre[0], k), lt(k, pre[1])] if len(pre) == 2 else [le(ZERO, k), lt(k, pre[0])]
                with self.cx.scope(rng):
                    b = go(tm.subst(x.args[-1], {tm.bvar(x): k}), depth + (k,))
                r = tm.bind(x.op, pre, k, b)
            else:
                r = tm.rebuild(x, [go(q, depth) for q in x.args])
            q = fn(r)
            if q is not None:
                r = q
            memo[key] = r
            return r
        return go(t, ())

    def label(self, s):
        self.cx.labels.append(s)

    def term(self, v):
        if isinstance(v, Arr):
            if v.shape:
                raise SpecError('array where a number was expected')
            v = self.np.item(self.I, v)
        if isinstance(v, T):
            return v
        if isinstance(v, S):
            return v.t
        return self.I.numterm(v) if not isinstance(v, bool) else tm.boolc(v)

    def is_arr(self, name, a, dims=None, kind=None):
        if not isinstance(a, Arr):
            self.check(name, False, 'not an array: %r' % (a,))
            return False
        if dims is not None:
            dims = [self.dim(d) for d in dims]
            if not self.same_dims(name + ': shape', a.shape, dims):
                return False
        if kind is not None and a.kind != kind:
            self.check(name + ': dtype', False, 'dtype kind %s' % a.kind)
            return False
        return True

    def same_dims(self, name, sa, sb):
        sa, sb = list(sa), list(sb)
        if len(sa) != len(sb):
            return self.check(name, False, 'dimensions %s and %s' % (sa, sb))
        ok = True
        for x, y in zip(sa, sb):
            if isinstance(x, Block) or isinstance(y, Block):
                if not (isinstance(x, Block) and isinstance(y, Block) and x == y):
                    ok = self.check(name, False, 'dimensions %s and %s' % (sa, sb))
                continue
            ok = self.check(name, eq(x, y), 'dimensions %s and %s' % (sa, sb)) and ok
        return ok

    def elements(self, name, a, spec, dims=None):
        """obligation: the array has the dimensions and a[idx] == spec(idx) for every index"""
        if dims is None:
            dims = a.shape if isinstance(a, Arr) else None
        if not self.is_arr(name, a, dims):
            return False
        idx = tuple(tm.fresh('i', 'Int') for _ in a.shape)
        with self.cx.scope([f for d, i in zip(a.shape, idx) for f in (le(ZERO, i), lt(i, dsize(d)))]):
            got = a.at(idx)
            want = spec(idx)
            if isinstance(got, (str, SStr)) and isinstance(want, (str, SStr)):
                return self.equal(name, got, want)
            return self.same(name, got, want)

    def same(self, name, got, want):
        try:
            got, want = self.term(got), self.term(want)
        except Unsupported as x:
            return self.check(name, False, str(x))
        return self.cx.oblige(name, eq(got, want), 'got %s   want %s' % (short(got), short(want)))

    def same_int(self, name, got, want):
        """the same number, given as an int (a float of the same value is no length)"""
        isint = isinstance(got, int) and not isinstance(got, bool) or isinstance(got, S) and got.kind == 'i'
        if not isint:
            return self.check(name, False, 'not an integer: %r' % (got,))
        return self.same(name, got, want)

    def equal(self, name, a, b):
        """obligation: two values are equal (same structure, same contents)"""
        I = self.I
        if isinstance(a, Arr) or isinstance(b, Arr):
            if not (isinstance(a, Arr) and isinstance(b, Arr)):
                if isinstance(a, Arr) and not a.shape:
                    return self.equal(name, self.np.item(I, a), b)
                if isinstance(b, Arr) and not b.shape:
                    return self.equal(name, a, self.np.item(I, b))
                return self.check(name, False, '%r and %r' % (a, b))
            if not self.same_dims(name + ': shape', a.shape, b.shape):
                return False
            return self.elements(name, a, lambda idx: b.at(idx))
        if isinstance(a, SymVal) and isinstance(b, SymVal):
            return self.check(name, eq(a.t, b.t), '%s and %s' % (a.t, b.t))
        if isinstance(a, PDict) and isinstance(b, PDict):
            return self.equal_dict(name, a, b)
        if isinstance(a, (tuple, PList, STup)) and isinstance(b, (tuple, PList, STup)):
            if isinstance(a, PList) != isinstance(b, PList):
                return self.check(name, False, '%r and %r' % (a, b))
            sa, sb = I.segs_of(a), I.segs_of(b)
            if all(isinstance(s, One) for s in sa) and all(isinstance(s, One) for s in sb):
                if len(sa) != len(sb):
                    return self.check(name, False, 'lengths %d and %d' % (len(sa), len(sb)))
                return all([self.equal('%s[%d]' % (name, i), x.v, y.v)
                            for i, (x, y) in enumerate(zip(sa, sb))])
        if (a is None) != (b is None):
            return self.check(name, False, '%r and %r' % (a, b))
        r = I.value_eq(a, b)
        if isinstance(r, S):
            r = r.t
        if isinstance(r, bool):
            r = tm.boolc(r)
        if not isinstance(r, T):
            raise SpecError('equality of %r and %r' % (a, b))
        return self.check(name, r, '%s and %s' % (short(a), short(b)))

    def equal_dict(self, name, a, b):
        # segments of no keys do not count
        live = [[s for s in d.segs if not (isinstance(s, DRep) and self.cx.prove(eq(s.n, ZERO)))] for d in (a, b)]
        if not live[0] and not live[1]:
            return self.check(name, True)
        if len(a.segs) != len(b.segs):
            return self.check(name, False, 'dictionaries %r and %r' % (a, b))
        ok = True
        for s, t in zip(a.segs, b.segs):
            if isinstance(s, DOne) and isinstance(t, DOne):
                ok = self.check(name + ': key', self.key_eq(s.k, t.k), '%r and %r' % (s.k, t.k)) and ok
                ok = self.equal('%s[%s]' % (name, s.k if isinstance(s.k, str) else '*'), s.v, t.v) and ok
            elif isinstance(s, DRep) and isinstance(t, DRep):
                ok = self.check(name + ': number of keys', eq(s.n, t.n)) and ok
                k = tm.fresh('j', 'Int')
                with self.cx.scope([le(ZERO, k), lt(k, s.n)]):
                    ok = self.check(name + ': key', self.key_eq(s.key(k), t.key(k))) and ok
                    ok = self.equal(name + '[*]', s.val(k), t.val(k)) and ok
            else:
                return self.check(name, False, 'dictionaries %r and %r' % (a, b))
        return ok

    def key_eq(self, a, b):
        r = self.I.value_eq(a, b)
        if isinstance(r, S):
            r = r.t
        return tm.boolc(r) if isinstance(r, bool) else r

    # ------------------------------------------------------------ frame conditions
    def remember(self, *arrs):
        for a in arrs:
            self.snaps.append((a, a.snap()))

    def unchanged(self, name='argument is not modified'):
        for a, c in self.snaps:
            if a.cell.storage().content is None:
                continue
            self.elements('%s (%s)' % (name, a.cell.name or 'array'), a, lambda idx: c(idx))

    def fresh_storage(self, name, a, *others):
        for o in others:
            if isinstance(a, Arr) and isinstance(o, Arr):
                self.check(name, a.cell.storage() is not o.cell.storage(), 'shares storage')


def short(x, n=300):
    s = str(x)
    return s if len(s) <= n else s[:n] + '...'

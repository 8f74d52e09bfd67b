"""Normal form of sums of products of matrix entries: the algebra of matrices over their entries.

normal(t, cx): {canonical net: coefficient}; a net is a product of entries summed over bound indices.  Rules applied:
Kronecker deltas are substituted, an inverse cancels against its matrix, eigenvectors are orthonormal."""
import itertools
from fractions import Fraction
from . import terms as tm
from .terms import *


class Net:
    def __init__(self, c, bounds, fs, deltas):
        self.c, self.bounds, self.fs, self.deltas = c, bounds, fs, deltas

    def sub(self, mp):
        return Net(self.c, [(v, tm.subst(h, mp)) for v, h in self.bounds], [tm.subst(f, mp) for f in self.fs],
                   [(tm.subst(a, mp), tm.subst(b, mp)) for a, b in self.deltas])

    def vars_of(self):
        return [v for v, _ in self.bounds]


class Normal:
    def __init__(self, cx, limit=4000):
        self.cx, self.limit = cx, limit
        self.reps = []

    # ---------------------------------------------------------------- expansion
    def expand(self, t, bounds):
        out = []
        for mono, c in tm.poly_of(t).items():
            parts = [Net(Fraction(c), [], [], [])]
            for a, e in mono:
                if e == int(e) and e > 0 and (a.op in ('sum', 'ite', 'par') or a.op == 'app' and a.val == 'ELT'):
                    for _ in range(int(e)):
                        parts = self.cross(parts, self.atom(a, bounds))
                elif e == int(e) and e > 0:
                    for p in parts:
                        p.fs.extend([self.canon(a, bounds)] * int(e))
                else:
                    for p in parts:
                        p.fs.append(('pow', self.canon(a, bounds), e))
            out.extend(parts)
            if len(out) > self.limit:
                raise OverflowError
        return out

    def cross(self, ps, qs):
        out = []
        for p in ps:
            for q in qs:
                # bound indices of a factor used twice are renamed apart
                mp = {v: tm.scratch() for v in q.vars_of()}
                q2 = q.sub2(mp) if mp else q
                out.append(Net(p.c * q2.c, p.bounds + q2.bounds, p.fs + q2.fs, p.deltas + q2.deltas))
        return out

    def atom(self, a, bounds):
        if a.op == 'sum':
            k = tm.scratch()
            body = tm.open_binder(a, k)
            b = [(k, a.args[1])]
            with self.cx.scope([le(ZERO, k), lt(k, a.args[1])]):
                return [Net(n.c, b + n.bounds, n.fs, n.deltas) for n in self.expand(body, bounds + b)]
        if a.op == 'par':
            return self.expand(a.args[0], bounds)
        if a.op == 'app':
            return self.expand(tm.open_elt(*a.args), bounds)
        c, x, y = a.args
        if c.op == 'eq0':
            i = self.delta(c, bounds)
            if i is not None:
                out = [Net(n.c, n.bounds, n.fs, n.deltas + [i]) for n in self.expand(sub(x, y), bounds)]
                return out + (self.expand(y, bounds) if y is not ZERO else [])
        if integral(c):
            if self.cx.prove(c):
                return self.expand(x, bounds)
            if self.cx.prove(not_(c)):
                return self.expand(y, bounds)
        return [Net(Fraction(1), [], [self.canon(a, bounds)], [])]

    def delta(self, c, bounds):
        for v, _ in reversed(bounds):
            if v in tm.fv(c):
                s = tm.solve_eq(c, v)
                if s is not None:
                    return (v, s)
        vs = [v for v in tm.fv(c) if v.sort == 'Int']
        for v in vs:
            s = tm.solve_eq(c, v)
            if s is not None:
                return (v, s)
        return None

    def canon(self, a, bounds):
        """conditional scalars that are provably equal are written the same way"""
        bv = [v for v, _ in bounds]

        def rep(u):
            if u.op != 'ite':
                return None
            vs = [v for v in bv if v in tm.fv(u)]
            for ws, r in self.reps:
                if len(ws) == len(vs):
                    r2 = tm.subst(r, dict(zip(ws, vs)))
                    if r2 is u or self.cx.prove(eq(r2, u)):
                        return r2
            self.reps.append((vs, u))
            return u
        return self.map_ite(a, rep)

    def map_ite(self, a, f):
        r = f(a)
        if r is not None:
            return r
        if a.op in ('app', 'poly', 'par') and any(x.op == 'ite' for x in tm.subterms(a)):
            found = {}
            for x in tm.subterms(a):
                if x.op == 'ite' and x not in found:
                    y = f(x)
                    if y is not x:
                        found[x] = y
            if found:
                return tm.replace(a, found)
        return a

    # ---------------------------------------------------------------- simplification
    def simplify(self, n):
        while True:
            m = self.step(n)
            if m is None:
                return n
            if m.c == 0:
                return m
            n = m

    def count(self, n, v):
        return sum(v in fv_(f) for f in n.fs) + sum(v in tm.fv(a) or v in tm.fv(b) for a, b in n.deltas) + \
            sum(v in tm.fv(h) for _, h in n.bounds)

    def within(self, n, y, hi):
        for v, h in n.bounds:
            if v is y and (h is hi or self.cx.prove(eq(h, hi))):
                return True
        facts = [x for v, h in n.bounds for x in (le(ZERO, v), lt(v, h))]
        with self.cx.scope(facts):
            return self.cx.prove(and_(le(ZERO, y), lt(y, hi)))

    def step(self, n):
        hi = dict(n.bounds)
        for q, (a, b) in enumerate(n.deltas):
            rest = n.deltas[:q] + n.deltas[q + 1:]
            if a is b:
                return Net(n.c, n.bounds, n.fs, rest)
            for x, y in ((a, b), (b, a)):
                if x in hi and x not in tm.fv(y) and self.within(n, y, hi[x]):
                    m = Net(n.c, [(v, h) for v, h in n.bounds if v is not x], n.fs, rest)
                    return m.sub2({x: y})
        fs = n.fs
        # sqrt(x) sqrt(x) = x
        for i, f in enumerate(fs):
            if isinstance(f, tuple):
                for j in range(i + 1, len(fs)):
                    g = fs[j]
                    if isinstance(g, tuple) and g[1] is f[1]:
                        return Net(n.c, n.bounds, fs[:i] + fs[i + 1:j] + fs[j + 1:] + [('pow', f[1], f[2] + g[2])],
                                   n.deltas)
            if isinstance(f, tuple) and f[1].op == 'app' and f[1].val == 'sqrt' and f[2] <= -2:
                return self.square(n, [i], f[1].args[0], f[2])
            if not isinstance(f, tuple) and f.op == 'app' and f.val == 'sqrt':
                for j in range(i + 1, len(fs)):
                    if fs[j] is f:
                        return self.square(n, [i, j], f.args[0], 2)
        for i, f in enumerate(fs):
            if isinstance(f, tuple):
                continue
            # x / x
            for j, g in enumerate(fs):
                if isinstance(g, tuple) and g[1] is f:
                    rest = [h for q, h in enumerate(fs) if q not in (i, j)]
                    if g[2] != -1:
                        rest.append(('pow', f, g[2] + 1))
                    return Net(n.c, n.bounds, rest, n.deltas)
            if f.op != 'app':
                continue
            if f.val == 'EIGVEC':
                l, x, y = f.args
                for j in range(i + 1, len(fs)):
                    g = fs[j]
                    if isinstance(g, tuple) or g.op != 'app' or g.val != 'EIGVEC' or g.args[0] is not l:
                        continue
                    rest = fs[:i] + fs[i + 1:j] + fs[j + 1:]
                    for same, p, q in ((y, x, g.args[1]), (x, y, g.args[2])):
                        if same is (g.args[2] if same is y else g.args[1]) and self.whole(n, same, hi, l) and \
                                self.count(n, same) == 2 and same not in tm.fv(p) and same not in tm.fv(q):
                            return Net(n.c, [(v, h) for v, h in n.bounds if v is not same], rest,
                                       n.deltas + [(p, q)])
            if f.val == 'CHOLP':
                # the factor times its transpose is the matrix
                l, x, y = f.args
                for j in range(i + 1, len(fs)):
                    g = fs[j]
                    if isinstance(g, tuple) or g.op != 'app' or g.val != 'CHOLP' or g.args[0] is not l or \
                            g.args[2] is not y or not self.whole(n, y, hi, l) or self.count(n, y) != 2 or \
                            y in tm.fv(x) or y in tm.fv(g.args[1]):
                        continue
                    return Net(n.c, [(v, h) for v, h in n.bounds if v is not y],
                               fs[:i] + fs[i + 1:j] + fs[j + 1:] + [('entry', tm.open_elt(l, x, g.args[1]), 1)], n.deltas)
            if f.val == 'INV':
                l, x, y = f.args
                u, v = tm.scratch(), tm.scratch()
                c0, body = entry(l, u, v)
                if body is None:
                    continue
                for j, g in enumerate(fs):
                    if j == i or isinstance(g, tuple):
                        continue
                    m = {}
                    if not match(body, g, (u, v), m) or u not in m or v not in m:
                        continue
                    p, q = m[u], m[v]
                    rest = [h for z, h in enumerate(fs) if z not in (i, j)]
                    for same, other, d in ((x, q, (p, y)), (y, p, (x, q))):
                        if same is other and self.whole(n, same, hi, l) and self.count(n, same) == 2 and \
                                same not in tm.fv(d[0]) and same not in tm.fv(d[1]):
                            return Net(n.c / c0, [(w, h) for w, h in n.bounds if w is not same], rest,
                                       n.deltas + [d])
        # an unused index
        for v, h in n.bounds:
            if self.count(n, v) == 0:
                return Net(n.c, [(w, x) for w, x in n.bounds if w is not v], n.fs + [h], n.deltas)
        return None

    def whole(self, n, v, hi, l):
        """the index runs over all of the matrix"""
        if v not in hi:
            return False
        if hi[v] is l.args[0]:
            return True
        facts = [y for u, h in n.bounds for y in (le(ZERO, u), lt(u, h))]
        with self.cx.scope(facts):
            return self.cx.prove(eq(hi[v], l.args[0]))

    def square(self, n, gone, x, e):
        facts = [y for v, h in n.bounds for y in (le(ZERO, v), lt(v, h))]
        rest = [h for q, h in enumerate(n.fs) if q not in gone]
        with self.cx.scope(facts):
            ok = self.cx.prove(le(ZERO, x))
        if not ok:
            return None
        if e == 2:
            m = [Net(n.c, n.bounds, rest + [x], n.deltas)]
            if x.op in ('app', 'ite', 'var'):
                return m[0]
            return None
        if e < -2:
            rest.append(('pow', tm.sqrt(x), e + 2))
        return Net(n.c, n.bounds, rest + [('pow', x, -1)], n.deltas)

    # ---------------------------------------------------------------- canonical form
    def key(self, n):
        vs = n.vars_of()
        best = None
        canon = [tm.var('$b%d' % i, 'Int') for i in range(len(vs))]
        if len(vs) > 6:
            raise OverflowError
        for p in itertools.permutations(range(len(vs))):
            mp = {vs[i]: canon[p[i]] for i in range(len(vs))}
            k = (tuple(sorted((p[i], tm.subst(h, mp).id) for i, (v, h) in enumerate(n.bounds))),
                 tuple(sorted(key_(f, mp) for f in n.fs)),
                 tuple(sorted(tuple(sorted((tm.subst(a, mp).id, tm.subst(b, mp).id))) for a, b in n.deltas)))
            if best is None or k < best:
                best = k
        return best

    def normal(self, t):
        out, shown = {}, {}
        work = self.expand(t, [])
        while work:
            n = self.simplify(work.pop())
            if n.c == 0:
                continue
            q = next((i for i, f in enumerate(n.fs) if isinstance(f, tuple) and f[0] == 'entry'), None)
            if q is not None:
                # the entry is itself a sum of products
                mp = {v: tm.scratch() for v in n.vars_of()}
                m = n.sub2(mp)
                f = m.fs[q]
                rest = Net(m.c, m.bounds, m.fs[:q] + m.fs[q + 1:], m.deltas)
                with self.cx.scope([x for v, h in m.bounds for x in (le(ZERO, v), lt(v, h))]):
                    work.extend(self.cross([rest], self.expand(f[1], m.bounds)))
                continue
            k = self.key(n)
            out[k] = out.get(k, 0) + n.c
            shown[k] = n
            if not out[k]:
                del out[k]
        self.shown = {k: shown[k] for k in out}
        return out


def sub2(self, mp):
    def f(x):
        return (x[0], tm.subst(x[1], mp), x[2]) if isinstance(x, tuple) else tm.subst(x, mp)
    return Net(self.c, [(mp.get(v, v), tm.subst(h, mp)) for v, h in self.bounds], [f(x) for x in self.fs],
               [(tm.subst(a, mp), tm.subst(b, mp)) for a, b in self.deltas])


Net.sub2 = Net.sub = sub2


def integral(c):
    if c.op in ('and', 'or', 'not'):
        return all(integral(x) for x in c.args)
    return c.op in ('eq0', 'le0', 'lt0') and c.args[0].sort == 'Int'


def fv_(f):
    return tm.fv(f[1]) if isinstance(f, tuple) else tm.fv(f)


def key_(f, mp):
    return (tm.subst(f[1], mp).id, Fraction(f[2])) if isinstance(f, tuple) else (tm.subst(f, mp).id, Fraction(1))


def entry(l, u, v):
    """the entry (u, v) of a matrix: (coefficient, atom), the atom None when it is not a multiple of one"""
    b = tm.open_elt(l, u, v)
    p = tm.poly_of(b)
    if len(p) == 1:
        (mono, c), = p.items()
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == 'app':
            return Fraction(c), mono[0][0]
    return None, None


def match(pat, t, vs, m):
    if pat in vs:
        if pat in m:
            return m[pat] is t
        m[pat] = t
        return True
    if pat is t:
        return True
    if pat.op != t.op or pat.val != t.val or len(pat.args) != len(t.args) or pat.op != 'app':
        return False
    return all(match(a, b, vs, m) for a, b in zip(pat.args, t.args))


def is_zero(cx, t):
    try:
        return not Normal(cx).normal(t)
    except OverflowError:
        return False


def show(cx, t):
    n = Normal(cx)
    try:
        n.normal(t)
    except OverflowError:
        return 'too large'
    return ' + '.join('%s*S%s %s %s' % (x.c, [str(v) for v in x.vars_of()], [str(f) for f in x.fs],
                                       ['%s=%s' % d for d in x.deltas]) for x in n.shown.values())

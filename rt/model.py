"""Reference models of the pattern contracts, written from the property statements only.

Each Spec describes a pattern independently of the library: shape, membership in the constraint set, the
non-free flat layout, names, dependence of entries, constructor settings; build() makes the real pattern.
"""
import itertools
from collections import OrderedDict
import numpy as np

INF = float('inf')


class Spec:
    def dv_of(self, check):
        return self.dv if check is None else check


class Num(Spec):
    kind = 'num'

    def __init__(self, shape, lb, ub, dv, fd, cls='array'):
        self.shape, self.lb, self.ub, self.dv, self.fd, self.cls = tuple(shape), lb, ub, dv, fd, cls

    def build(self):
        import paragami as pg
        if self.cls == 'vector':
            return pg.NumericVectorPattern(length=self.shape[0], lb=self.lb, ub=self.ub,
                                           default_validate=self.dv, free_default=self.fd)
        if self.cls == 'scalar':
            return pg.NumericScalarPattern(lb=self.lb, ub=self.ub, default_validate=self.dv,
                                           free_default=self.fd)
        return pg.NumericArrayPattern(shape=self.shape, lb=self.lb, ub=self.ub,
                                      default_validate=self.dv, free_default=self.fd)

    def length(self, free):
        return int(np.prod(self.shape, dtype=int))

    def interior(self, rng):
        u = rng.uniform(0.02, 0.98, self.shape)
        t = rng.normal(size=self.shape) * rng.choice([0.3, 1.0, 3.0])
        if self.lb > -INF and self.ub < INF:
            return self.lb + (self.ub - self.lb) * u
        if self.lb > -INF:
            return self.lb + np.exp(t)
        if self.ub < INF:
            return self.ub - np.exp(t)
        return t

    def valid(self, rng):
        v = self.interior(rng)
        w = v.reshape(-1)
        for i in range(w.size):
            r = rng.integers(0, 6)
            if r == 0 and self.lb > -INF:
                w[i] = self.lb
            elif r == 1 and self.ub < INF:
                w[i] = self.ub
        return v

    def bad(self, rng):
        """right shape, wrong value (or None)"""
        if self.length(False) == 0 or (self.lb == -INF and self.ub == INF):
            return None
        v = self.valid(rng)
        w = v.reshape(-1)
        i = rng.integers(0, w.size)
        eps = rng.choice([1e-9, 1e-3, 1.0, 50.0])
        opts = []
        if self.lb > -INF:
            opts.append(self.lb - eps * max(1, abs(self.lb)))
        if self.ub < INF:
            opts.append(self.ub + eps * max(1, abs(self.ub)))
        w[i] = opts[rng.integers(0, len(opts))]
        return v

    def ok_value(self, v, tol=0.0):
        v = np.asarray(v)
        if v.dtype == object:
            return False
        s = tol * max(1.0, *(abs(b) for b in (self.lb, self.ub, 0.0) if abs(b) < INF))
        return bool(np.all(v >= self.lb - s) and np.all(v <= self.ub + s))

    def is_valid(self, v, check):
        if np.shape(v) != self.shape:
            return False
        return self.ok_value(v) if self.dv_of(check) else True

    def flat(self, v):
        return np.array([v[i] for i in np.ndindex(*self.shape)]) if self.length(False) else np.zeros(0)

    def unflat(self, x):
        x = np.asarray(x)
        v = np.empty(self.shape, dtype=x.dtype)
        for n, i in enumerate(np.ndindex(*self.shape)):
            v[i] = x[n]
        return v

    def names(self, free):
        return ['[' + ','.join(str(k) for k in i) + ']' for i in np.ndindex(*self.shape)]

    def deps(self, idx):
        """free indices the folded entry idx depends on"""
        return {int(np.ravel_multi_index(idx, self.shape))}

    def group(self, idx):
        """free indices that may be reported for the selected entry"""
        return self.deps(idx)

    def settings(self):
        return (type(self).__name__, self.cls, self.shape, float(self.lb), float(self.ub), self.dv, self.fd)

    def has_logdet(self):
        return True


class Simp(Spec):
    kind = 'simp'

    def __init__(self, k, ashape, dv, fd):
        self.k, self.ashape, self.dv, self.fd = k, tuple(ashape), dv, fd
        self.shape = self.ashape + (k,)

    def build(self):
        import paragami as pg
        return pg.SimplexArrayPattern(simplex_size=self.k, array_shape=self.ashape,
                                      default_validate=self.dv, free_default=self.fd)

    def length(self, free):
        return int(np.prod(self.ashape, dtype=int)) * (self.k - 1 if free else self.k)

    def interior(self, rng):
        e = np.exp(rng.normal(size=self.shape) * rng.choice([0.2, 1.0, 2.5]))
        return e / np.sum(e, axis=-1, keepdims=True)

    def valid(self, rng):
        v = self.interior(rng)
        if rng.integers(0, 2) and v.size:
            i = tuple(rng.integers(0, s) for s in self.ashape)
            v[i] = 0
            v[i + (rng.integers(0, self.k),)] = 1
        return v

    def bad(self, rng):
        v = self.interior(rng)
        if not v.size:
            return None
        i = tuple(rng.integers(0, s) for s in self.ashape)
        r = rng.integers(0, 4)
        a, b = rng.permutation(self.k)[:2]
        if r == 0:
            v[i + (a,)] += rng.choice([1e-6, 0.1, 3])
        elif r == 1:
            v[i + (a,)] -= 1e-6
        elif r == 2:
            v[i + (b,)] += v[i + (a,)] + 1e-4      # still sums to one
            v[i + (a,)] = -1e-4
        else:
            v[i] = v[i] * 2
        return v

    def ok_value(self, v, tol=0.0):
        v = np.asarray(v)
        return bool(np.all(v >= -tol) and np.all(np.abs(v.sum(axis=-1) - 1) <= 1e-11 + tol))

    def is_valid(self, v, check):
        if np.shape(v) != self.shape:
            return False
        return self.ok_value(v) if self.dv_of(check) else True

    flat = Num.flat
    unflat = Num.unflat

    def names(self, free):
        return None

    def _off(self, idx):
        return int(np.ravel_multi_index(idx[:-1], self.ashape)) if self.ashape else 0

    def deps(self, idx):
        o = self._off(idx) * (self.k - 1)
        return set(range(o, o + self.k - 1))

    group = deps

    def settings(self):
        return (type(self).__name__, self.k, self.ashape, self.dv, self.fd)

    def has_logdet(self):
        return False


class Psd(Spec):
    kind = 'psd'

    def __init__(self, n, dlb, dv, fd):
        self.n, self.dlb, self.dv, self.fd = n, dlb, dv, fd
        self.shape = (n, n)

    def build(self):
        import paragami as pg
        return pg.PSDSymmetricMatrixPattern(size=self.n, diag_lb=self.dlb, default_validate=self.dv,
                                            free_default=self.fd)

    def length(self, free):
        return self.n * (self.n + 1) // 2 if free else self.n * self.n

    def interior(self, rng):
        L = np.tril(rng.normal(size=self.shape))
        L[np.diag_indices(self.n)] = np.exp(rng.normal(size=self.n) * 0.5)
        m = L @ L.T
        m = 0.5 * (m + m.T)
        return m + self.dlb * np.eye(self.n)

    def valid(self, rng):
        v = self.interior(rng)
        if rng.integers(0, 4) == 0:
            v = self.dlb * np.eye(self.n)
        return v

    def bad(self, rng):
        v = self.interior(rng)
        if self.n > 1 and rng.integers(0, 2):
            i, j = rng.permutation(self.n)[:2]
            v[i, j] += rng.choice([1e-6, 1.0, -2.0])
        else:
            i = rng.integers(0, self.n)
            v[i, i] = self.dlb - rng.choice([1e-6, 1.0])
        return v

    def ok_value(self, v, tol=0.0):
        v = np.asarray(v)
        s = tol * max(1.0, float(np.max(np.abs(v))) if v.size else 1.0)
        return bool(np.all(np.abs(v - v.T) <= s) and np.all(np.diag(v) >= self.dlb - s))

    def is_valid(self, v, check):
        if np.shape(v) != self.shape:
            return False
        return self.ok_value(v) if self.dv_of(check) else True

    flat = Num.flat
    unflat = Num.unflat

    def names(self, free):
        return None

    def deps(self, idx):
        i, j = idx
        return {r * (r + 1) // 2 + k for r in (i, j) for k in range(min(i, j) + 1)}

    def group(self, idx):
        return set(range(self.length(True)))

    def settings(self):
        return (type(self).__name__, self.n, float(self.dlb), self.dv, self.fd)

    def has_logdet(self):
        return False


class Arr(Spec):
    kind = 'arr'

    def __init__(self, ashape, base, fd):
        self.ashape, self.base, self.fd = tuple(ashape), base, fd
        self.shape = self.ashape + base.shape

    def build(self):
        import paragami as pg
        return pg.PatternArray(array_shape=self.ashape, base_pattern=self.base.build(),
                               free_default=self.fd)

    def items(self):
        return list(np.ndindex(*self.ashape))

    def length(self, free):
        return len(self.items()) * self.base.length(free)

    def _fill(self, f, dtype=float):
        v = np.empty(self.shape, dtype=dtype)
        for i in self.items():
            v[i] = f(i)
        return v

    def interior(self, rng):
        return self._fill(lambda i: self.base.interior(rng))

    def valid(self, rng):
        return self._fill(lambda i: self.base.valid(rng))

    def bad(self, rng):
        v = self.valid(rng)
        it = self.items()
        b = self.base.bad(rng) if it else None
        if b is None:
            return None
        v[it[rng.integers(0, len(it))]] = b
        return v

    def ok_value(self, v, tol=0.0):
        return all(self.base.ok_value(np.asarray(v)[i], tol) for i in self.items())

    def is_valid(self, v, check):
        if np.shape(v) != self.shape:
            return False
        return all(self.base.is_valid(v[i], check) for i in self.items())

    def flat(self, v):
        return np.concatenate([np.zeros(0)] + [self.base.flat(v[i]) for i in self.items()])

    def unflat(self, x):
        x = np.asarray(x)
        n = self.base.length(False)
        v = np.empty(self.shape, dtype=x.dtype)
        for k, i in enumerate(self.items()):
            v[i] = self.base.unflat(x[k * n:(k + 1) * n])
        return v

    def names(self, free):
        return None

    def deps(self, idx, which='deps'):
        r = len(self.ashape)
        o = int(np.ravel_multi_index(idx[:r], self.ashape)) * self.base.length(True)
        return {o + k for k in getattr(self.base, which)(idx[r:])}

    def group(self, idx):
        return self.deps(idx, 'group')

    def settings(self):
        return (type(self).__name__, self.ashape, self.base.settings(), self.fd)

    def has_logdet(self):
        return False


class Dict(Spec):
    kind = 'dict'

    def __init__(self, members, fd):
        self.members, self.fd = OrderedDict(members), fd
        self.shape = None

    def build(self):
        import paragami as pg
        p = pg.PatternDict(free_default=self.fd)
        for k, s in self.members.items():
            p[k] = s.build()
        return p

    def length(self, free):
        return sum(s.length(free) for s in self.members.values())

    def interior(self, rng):
        return {k: s.interior(rng) for k, s in self.members.items()}

    def valid(self, rng):
        # keys in another order must not matter
        d = {k: s.valid(rng) for k, s in self.members.items()}
        ks = list(d)
        rng.shuffle(ks)
        return {k: d[k] for k in ks}

    def bad(self, rng):
        d = self.valid(rng)
        ks = [k for k, s in self.members.items()]
        rng.shuffle(ks)
        if not ks:
            return None
        if rng.integers(0, 4) == 0:
            del d[ks[0]]
            return d
        for k in ks:
            b = self.members[k].bad(rng)
            if b is not None:
                d[k] = b
                return d
        del d[ks[0]]
        return d

    def ok_value(self, v, tol=0.0):
        return all(s.ok_value(v[k], tol) for k, s in self.members.items())

    def is_valid(self, v, check):
        return all(k in v and s.is_valid(v[k], check) for k, s in self.members.items())

    def flat(self, v):
        return np.concatenate([np.zeros(0)] + [s.flat(v[k]) for k, s in self.members.items()])

    def unflat(self, x):
        out, o = OrderedDict(), 0
        for k, s in self.members.items():
            n = s.length(False)
            out[k] = s.unflat(x[o:o + n])
            o += n
        return out

    def names(self, free, delim='_'):
        out = []
        for k, s in self.members.items():
            ns = s.names(free)
            if ns is None:
                ns = [str(i) for i in range(s.length(free))]
            out.extend(k + delim + n for n in ns)
        return out

    def settings(self):
        return (type(self).__name__, tuple((k, s.settings()) for k, s in self.members.items()), self.fd)

    def has_logdet(self):
        return all(s.has_logdet() for s in self.members.values())


# ------------------------------------------------------------------ generators
def g_dv(rng):
    return bool(rng.integers(0, 2))


def g_fd(rng):
    return [None, True, False][rng.integers(0, 3)]


def g_bounds(rng):
    a = float(np.round(rng.normal() * rng.choice([0.5, 3, 100]), 3))
    w = float(np.round(rng.choice([0.1, 1.0, 2.5, 40.0]), 3))
    r = rng.integers(0, 8)
    if r in (0, 1):
        return -INF, INF
    if r == 2:
        return a, INF
    if r == 3:
        return -INF, a
    if r == 4:
        return 0.0, INF
    if r == 5:
        return int(np.floor(a)), int(np.floor(a)) + 1 + int(rng.integers(0, 3))
    if r == 6:
        return 0.0, 1.0
    return a, a + w


EMPTY = [True]


def g_shape(rng, lo=1, hi=3, dmax=4):
    sh = [int(rng.integers(1, dmax)) for _ in range(rng.integers(lo, hi + 1))]
    if sh and EMPTY[0] and rng.integers(0, 25) == 0:
        sh[rng.integers(0, len(sh))] = 0            # no entries, no elements
    return tuple(sh)


def g_num(rng):
    lb, ub = g_bounds(rng)
    c = ['array', 'array', 'vector', 'scalar'][rng.integers(0, 4)]
    shape = {'array': g_shape(rng), 'vector': (int(rng.integers(1, 6)),), 'scalar': (1,)}[c]
    return Num(shape, lb, ub, g_dv(rng), g_fd(rng), c)


def g_simp(rng):
    return Simp(int(rng.integers(2, 6)), g_shape(rng, 0, 3, 4), g_dv(rng), g_fd(rng))


def g_psd(rng):
    return Psd(int(rng.integers(1, 5)), float(rng.choice([0.0, 0.0, 0.5, 2.0])), g_dv(rng), g_fd(rng))


def g_arr(rng, depth=1):
    base = [g_num, g_simp, g_psd][rng.integers(0, 3)](rng)
    if depth > 0 and rng.integers(0, 4) == 0:
        base = g_arr(rng, depth - 1)
    return Arr(g_shape(rng, 1, 2, 4), base, g_fd(rng))


NAMES = ['a', 'b', 'x', 'y_1', 'mu', 'Sigma', 'zz top', '0', 'pattern', 'keys', 'B', 'lb']


def g_dict(rng, depth=2, leaf=None):
    ks = list(rng.permutation(NAMES)[:0 if EMPTY[0] and rng.integers(0, 12) == 0 else rng.integers(1, 5)])
    mem = []
    for k in ks:
        r = rng.integers(0, 6)
        if r == 0 and depth > 0:
            s = g_dict(rng, depth - 1, leaf)
        elif leaf is not None:
            s = leaf(rng)
        else:
            s = [g_num, g_num, g_simp, g_psd, g_arr][rng.integers(0, 5)](rng)
        mem.append((str(k), s))
    return Dict(mem, g_fd(rng))


GENS = [g_num, g_simp, g_psd, g_arr, g_dict]


def g_any(rng):
    return GENS[rng.integers(0, len(GENS))](rng)


def walk(v):
    if isinstance(v, dict):
        for k in v:
            for x in walk(v[k]):
                yield x
    else:
        yield v


def copyv(v):
    if isinstance(v, dict):
        return {k: copyv(x) for k, x in v.items()}
    return np.array(v, copy=True)


def relayout(v, rng):
    """the same value with another memory layout"""
    if isinstance(v, dict):
        return {k: relayout(x, rng) for k, x in v.items()}
    r = rng.integers(0, 4)
    if r == 0:
        return np.asfortranarray(v)
    if r == 1:
        big = np.zeros(tuple(2 * s for s in v.shape), dtype=v.dtype)
        sl = tuple(slice(0, None, 2) for _ in v.shape)
        big[sl] = v
        return big[sl]
    return v


def same(a, b, tol=0.0):
    """equal folded values: same keys in the same order or arrays of the same shape"""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and \
            all(same(a[k], b[k], tol) for k in a)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if tol == 0:
        return bool(np.all(a == b))
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    s = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
    return bool(np.all(np.abs(a - b) <= tol * s))


def key_order(spec, v):
    if spec.kind != 'dict':
        return True
    return list(v.keys()) == list(spec.members) and all(key_order(s, v[k]) for k, s in spec.members.items())


def select(spec, rng, p=None):
    """a random boolean selection in folded shape"""
    if spec.kind == 'dict':
        return {k: select(s, rng, p if rng.integers(0, 3) else 0.0) for k, s in spec.members.items()}
    q = rng.choice([0.0, 0.15, 0.5, 1.0]) if p is None else p
    return rng.uniform(size=spec.shape) < q


def sel_sets(spec, sel):
    """(nonfree indices, needed free indices, allowed free indices, exact?) of a selection"""
    if spec.kind == 'dict':
        nf, need, allow, exact = [], set(), set(), True
        on = of = 0
        for k, s in spec.members.items():
            a, b, c, e = sel_sets(s, sel[k])
            nf += [on + x for x in a]
            need |= {of + x for x in b}
            allow |= {of + x for x in c}
            exact = exact and e
            on += s.length(False)
            of += s.length(True)
        return nf, need, allow, exact
    where = spec.flat(sel).astype(bool)
    nf = [int(i) for i in np.nonzero(where)[0]]
    need, allow = set(), set()
    for i in np.ndindex(*spec.shape):
        if sel[i]:
            need |= spec.deps(i)
            allow |= spec.group(i)
    b = spec
    while b.kind == 'arr':
        b = b.base
    return nf, need, allow, b.kind == 'num'

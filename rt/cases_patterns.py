"""Runtime contracts of the patterns (C01-C13, C22)."""
import io
import json
import os
import tempfile
import numpy as np
from collections import OrderedDict
import paragami as pg
from .core import case, need, raises, eqv, Fail
from .model import *

MODES = [True, False]


def setup(rng, gen=g_any):
    s = gen(rng)
    return s, s.build()


def fl(p, v, free=None, **k):
    """flatten and check that the result is a vector"""
    r = p.flatten(v, free=free, **k)
    need(isinstance(r, np.ndarray) and r.ndim == 1, 'flatten returns a one-dimensional array', got=r)
    return r


def modes(s):
    """ways of asking for a mode: (argument, resulting mode)"""
    out = [(True, True), (False, False)]
    if s.fd is not None:
        out.append((None, s.fd))
    return out


# ----------------------------------------------------------------- C01
@case('C01', 160)
def roundtrip_fold_flatten(rng):
    s, p = setup(rng)
    v = s.interior(rng)
    for arg, mode in modes(s):
        for chk in (None, True, False):
            if chk is True and not s.is_valid(v, True):
                continue
            w = relayout(v, rng)
            f = p.flatten(w, free=arg, validate_value=False if not s.is_valid(v, chk) else chk)
            r = p.fold(f, free=arg, validate_value=chk if chk is not None else False)
            eqv(r, v, 'fold(flatten(value)) is the value (free=%r)' % arg, 1e-7 if mode else 0.0,
                pattern=str(p))
            need(key_order(s, r), 'keys are in the order of the pattern', got=r, pattern=str(p))


@case('C01', 80)
def roundtrip_nonfree_all_valid(rng):
    s, p = setup(rng)
    v = s.valid(rng)
    r = p.fold(p.flatten(v, free=False), free=False)
    eqv(r, v, 'fold(flatten(value)) is the value (free=False)', pattern=str(p))
    need(key_order(s, r), 'keys are in the order of the pattern', got=r)


@case('C01', 30)
def roundtrip_integer_and_scalars(rng):
    s = Num(g_shape(rng), -INF, INF, True, None)
    p = s.build()
    v = rng.integers(-5, 6, s.shape)
    for m in MODES:
        eqv(p.fold(p.flatten(v, free=m), free=m), v, 'integer values come back (free=%s)' % m, 1e-12)
    big = rng.integers(-2 ** 62, 2 ** 62, s.shape)
    for m in MODES:
        r = p.fold(p.flatten(big, free=m), free=m)
        need(np.array_equal(r, big) and r.dtype == big.dtype, 'large integers come back (free=%s)' % m, got=r, want=big)
    q = pg.NumericScalarPattern(lb=-1.0)
    for x in (0.5, np.float64(2.0), np.array([3.0])):
        for m in MODES:
            r = q.fold(q.flatten(x, free=m), free=m)
            eqv(r, np.atleast_1d(x), 'scalar comes back', 1e-9, free=m)


@case('C01', 60)
def roundtrip_any_scale(rng):
    """bounds at zero, where values of any magnitude are represented to full relative accuracy"""
    c = 10.0 ** int(rng.integers(-14, 15))
    n = int(rng.integers(1, 5))
    u = rng.uniform(0.01, 0.99, n) if rng.integers(0, 2) else 10.0 ** -rng.uniform(0, 12, n) * 0.9
    lb, ub = [(0.0, c), (0.0, INF), (-INF, 0.0)][rng.integers(0, 3)]
    v = c * u if ub != 0 else -c * u
    p = pg.NumericVectorPattern(length=n, lb=lb, ub=ub)
    for m in MODES:
        r = p.fold(p.flatten(v, free=m), free=m)
        need(np.all(np.abs(r - v) <= 1e-9 * np.abs(v)), 'fold(flatten(value)) is the value, relative to its size',
             got=r, value=v, lb=lb, ub=ub, free=m)


@case('C01', 40)
def roundtrip_small_probabilities(rng):
    k = int(rng.integers(2, 5))
    z = 10.0 ** -rng.uniform(0, 200, size=(2, k))
    z[:, rng.integers(0, k)] = 1.0
    x = z / np.sum(z, axis=-1, keepdims=True)
    p = pg.SimplexArrayPattern(k, (2,))
    r = p.fold(p.flatten(x, free=True), free=True)
    need(np.all(np.abs(r - x) <= 1e-9 * x), 'small probabilities come back, relative to their size', got=r, value=x)


# ----------------------------------------------------------------- C02
@case('C02', 60)
def roundtrip_large_free(rng):
    """bounds at zero, where large free values do not meet the limits of floating point"""
    n = int(rng.integers(1, 5))
    b = float(10.0 ** rng.uniform(-3, 3))
    lb, ub, lo, hi = [(0.0, INF, -600, 600), (-INF, 0.0, -600, 600), (0.0, b, -600, 5), (-INF, INF, -1e9, 1e9)][
        rng.integers(0, 4)]
    x = rng.uniform(lo, hi, n)
    p = pg.NumericVectorPattern(length=n, lb=lb, ub=ub)
    r = fl(p, p.fold(x, free=True), True)
    need(np.all(np.abs(r - x) <= 1e-9 * np.maximum(1.0, np.abs(x))), 'flatten(fold(x)) is x (free, large values)',
         got=r, x=x, lb=lb, ub=ub)


def free_vec(s, rng, scale=None):
    n = s.length(True)
    x = rng.normal(size=n) * (rng.choice([0.1, 1.0, 2.0]) if scale is None else scale)
    if n and rng.integers(0, 3) == 0:
        x[rng.integers(0, n)] = 0.0
    return x


@case('C02', 160)
def roundtrip_flatten_fold_free(rng):
    s, p = setup(rng)
    x = np.clip(free_vec(s, rng), -2.5, 2.5)       # matrices lose digits when badly conditioned
    for arg, mode in modes(s):
        if not mode:
            continue
        v = p.fold(x, free=arg)
        r = fl(p, v, arg, validate_value=False)
        eqv(r, x, 'flatten(fold(x)) is x (free)', 1e-5, pattern=str(p))
        # the default checks accept it too
        if s.ok_value(v):
            r = fl(p, v, arg)
            eqv(r, x, 'flatten(fold(x)) is x (free, checked)', 1e-5, pattern=str(p))


@case('C02', 80)
def roundtrip_flatten_fold_nonfree(rng):
    s, p = setup(rng)
    v = s.valid(rng)
    x = s.flat(v)
    r = fl(p, p.fold(x, free=False), False)
    eqv(r, x, 'flatten(fold(x)) is x (non-free)', pattern=str(p))
    y = rng.normal(size=x.size)
    r = fl(p, p.fold(y, free=False, validate_value=False), False, validate_value=False)
    eqv(r, y, 'flatten(fold(x)) is x (non-free, unchecked)', pattern=str(p))
    z = rng.integers(-9, 10, x.size)
    r = fl(p, p.fold(z, free=False, validate_value=False), False, validate_value=False)
    eqv(r, z, 'flatten(fold(x)) is x (non-free, unchecked, integers)', pattern=str(p))


@case('C02', 40)
def free_map_injective_and_onto(rng):
    """two different free vectors fold to different values; every interior value is reached"""
    s, p = setup(rng)
    n = s.length(True)
    if not n:
        return
    x = free_vec(s, rng, 1.0)
    y = x.copy()
    i = rng.integers(0, n)
    y[i] += rng.choice([-1.0, 0.5])
    a, b = p.fold(x, free=True), p.fold(y, free=True)
    need(not same(a, b, 1e-12), 'different free vectors give different values', x=x, y=y, pattern=str(p))
    v = s.interior(rng)
    eqv(p.fold(p.flatten(v, free=True, validate_value=False), free=True), v, 'every interior value is reached',
        1e-7, pattern=str(p))


# ----------------------------------------------------------------- C03
@case('C03', 160)
def free_fold_valid(rng):
    s, p = setup(rng)
    x = free_vec(s, rng, rng.choice([0.0, 0.5, 2.0, 3.0]))
    v = p.fold(x, free=True)
    need(all(not np.any(np.isnan(a)) for a in walk(v)), 'no NaN', x=x, got=v, pattern=str(p))
    need(shape_ok(s, v), 'folded shape', got=v, pattern=str(p))
    need(strict_ok(s, v), 'the folded free vector lies in the constraint set', x=x, got=v, pattern=str(p))


def shape_ok(s, v):
    if s.kind == 'dict':
        return list(v.keys()) == list(s.members) and all(shape_ok(m, v[k]) for k, m in s.members.items())
    return np.shape(v) == s.shape


def strict_ok(s, v, tol=1e-9, pd=True):
    if s.kind == 'dict':
        return all(strict_ok(m, v[k], tol, pd) for k, m in s.members.items())
    if s.kind == 'arr':
        return all(strict_ok(s.base, v[i], tol, pd) for i in s.items())
    if not s.ok_value(v, tol if s.kind != 'psd' else 1e-9):
        return False
    if s.kind == 'psd' and pd:
        m = np.asarray(v) - 0.0
        return bool(np.all(m == m.T) and np.linalg.eigvalsh(m).min() > -1e-9 * max(1, np.abs(m).max())
                    and np.all(np.diag(m) >= s.dlb * (1 - 1e-12)))
    return True


@case('C03', 120)
def free_fold_valid_extreme(rng):
    s, p = setup(rng, [g_num, g_simp, g_num][rng.integers(0, 3)])
    n = s.length(True)
    x = rng.normal(size=n) * rng.choice([1, 10, 50, 300, 800, 1e5, 1e150])
    if n:
        x[rng.integers(0, n)] = rng.choice([-1, 1]) * rng.choice([0, 36.0, 710.0, 745.0, 1e3, 1e308])
    with np.errstate(all='ignore'):
        v = p.fold(x, free=True)
    need(not np.any(np.isnan(v)), 'no NaN', x=x, got=v, pattern=str(p))
    need(s.ok_value(v, 1e-12), 'the folded free vector lies in the constraint set', x=x, got=v, pattern=str(p))


@case('C03', 40)
def free_fold_valid_far_bounds(rng):
    c = 10.0 ** rng.uniform(3, 290)
    lb, ub = [(0.0, c), (-c, c), (-c, 0.0), (c / 2, c), (-INF, c), (-c, INF)][rng.integers(0, 6)]
    p = pg.NumericVectorPattern(3, lb=lb, ub=ub)
    x = rng.normal(size=3) * rng.choice([1, 30, 300, 700])
    with np.errstate(all='ignore'):
        v = p.fold(x, free=True)
    need(np.all(v >= lb) and np.all(v <= ub), 'within the bounds', got=v, lb=lb, ub=ub, x=x)


@case('C03', 80)
def empty_and_random_valid(rng):
    s, p = setup(rng)
    e = p.empty(valid=True)
    need(shape_ok(s, e), 'empty has the folded shape', got=e, pattern=str(p))
    need(strict_ok(s, e, 1e-12), 'empty(valid=True) is valid', got=e, pattern=str(p))
    ok, msg = p.validate_folded(e, validate_value=True)
    need(ok, 'empty(valid=True) passes validation', message=msg, got=e, pattern=str(p))
    f = p.flatten(e, free=True)
    need(np.all(np.isfinite(f)), 'empty(valid=True) is inside the constraint set', got=f, pattern=str(p))
    q = p.empty(valid=False)
    need(shape_ok(s, q), 'empty(valid=False) has the folded shape', got=q, pattern=str(p))
    for _ in range(2):
        r = p.random()
        need(shape_ok(s, r), 'random has the folded shape', got=r, pattern=str(p))
        need(strict_ok(s, r), 'random is valid', got=r, pattern=str(p))


@case('C03', 40)
def empty_bounds_grid(rng):
    for lb, ub in [(-INF, INF), (0.0, INF), (-INF, 0.0), (-3.0, -1.0), (5.0, 5.5), (1e-3, 2e-3), (-7, INF),
                   (-INF, -7.5), (0, 1), (-1e6, 1e6)]:
        s = Num((2,), lb, ub, True, None)
        e = s.build().empty(valid=True)
        need(s.ok_value(e) and np.all(np.isfinite(e)), 'empty(valid=True) within the bounds', lb=lb, ub=ub, got=e)


# ----------------------------------------------------------------- C04
@case('C04', 160)
def lengths(rng):
    s, p = setup(rng)
    v = s.interior(rng)
    for m in MODES:
        n = p.flat_length(free=m)
        need(isinstance(n, (int, np.integer)) and n == s.length(m), 'flat_length', got=n, want=s.length(m), free=m, pattern=str(p))
        f = fl(p, v, m, validate_value=False)
        need(f.shape == (s.length(m),), 'number of flat entries', got=f.shape, free=m, pattern=str(p))
        r = p.fold(f, free=m, validate_value=False)
        need(shape_ok(s, r), 'folded shape', got=r, free=m, pattern=str(p))
    if s.fd is not None:
        need(p.flat_length() == s.length(s.fd), 'flat_length with the default mode', pattern=str(p))
    if s.kind != 'dict':
        need(tuple(p.shape()) == s.shape, 'shape()', got=p.shape(), want=s.shape)


@case('C04', 160)
def wrong_lengths(rng):
    s, p = setup(rng)
    for m in MODES:
        n = s.length(m)
        base = rng.uniform(0.2, 0.8, size=n)
        for k in {n - 1, n + 1, 2 * n, 0, 1, s.length(not m), n + 7} - {n}:
            if k < 0:
                continue
            for chk in (None, False, True):
                raises(ValueError, lambda: p.fold(np.resize(base, k) if k else np.zeros(0), free=m,
                                                  validate_value=chk),
                       'fold of a vector of the wrong length', length=k, want=n, free=m, check=chk, pattern=str(p))
        shapes = [(n, 1), (1, n), (1, 1, n)]
        if s.shape is not None and len(s.shape) > 1:
            shapes.append(s.shape)
        for sh in shapes:
            if int(np.prod(sh)) == n and len(sh) != 1:
                for chk in (None, False, True):
                    raises(ValueError, lambda: p.fold(base.reshape(sh), free=m, validate_value=chk),
                           'fold of something that is not a vector', shape=sh, free=m, check=chk, pattern=str(p))


@case('C04', 1)
def lengths_by_type(rng):
    for n in range(1, 9):
        p = pg.PSDSymmetricMatrixPattern(size=n)
        need(p.flat_length(free=False) == n * n and p.flat_length(free=True) == n * (n + 1) // 2,
             'lengths of a matrix', n=n)
        need(p.size() == n and p.shape() == (n, n), 'size and shape of a matrix', n=n)
    for k in range(2, 7):
        for sh in [(), (1,), (3,), (2, 3), (2, 1, 3)]:
            p = pg.SimplexArrayPattern(simplex_size=k, array_shape=sh)
            m = int(np.prod(sh, dtype=int))
            need(p.flat_length(free=False) == m * k and p.flat_length(free=True) == m * (k - 1),
                 'lengths of simplexes', k=k, shape=sh)
            need(p.shape() == sh + (k,) and p.array_shape() == sh and p.simplex_size() == k, 'simplex shape')
    e = pg.PatternDict()
    need(e.flat_length(free=True) == 0 and e.flat_length(free=False) == 0, 'empty dictionary has length 0')


# ----------------------------------------------------------------- C05
def wrong_shape(s, rng):
    """a value of a wrong shape for a non-dictionary"""
    r = rng.integers(0, 7)
    sh = s.shape
    if r == 0:
        out = sh + (1,)
    elif r == 1:
        out = (1,) + sh
    elif r == 2:
        i = rng.integers(0, len(sh))
        out = sh[:i] + (sh[i] + 1,) + sh[i + 1:]
    elif r == 3:
        i = rng.integers(0, len(sh))
        out = sh[:i] + (max(1, sh[i] - 1),) + sh[i + 1:]
    elif r == 4:
        out = (int(np.prod(sh)),)
    elif r == 5:
        out = tuple(reversed(sh))
    else:
        out = sh[:-1] if len(sh) > 1 else sh + (sh[0],)
    if out == sh:
        out = sh + (2,)
    return np.full(out, 0.5)


def check_validate(s, p, v, chk, what):
    want = s.is_valid(v, chk)
    try:
        got = p.validate_folded(v, validate_value=chk)
    except Exception as e:
        raise Fail('validate_folded raised %s: %s' % (type(e).__name__, e) + '\n value=%r\n %s %s' % (v, p, what))
    need(isinstance(got, tuple) and len(got) == 2, 'validate_folded returns (ok, message)', got=got)
    need(bool(got[0]) == want, 'validate_folded (%s)' % what, got=got, want=want, value=v, check=chk,
         pattern=str(p), settings=s.settings())
    if not want:
        need(isinstance(got[1], str) and got[1] != '', 'a message is given', got=got)
    for m in MODES:
        if want:
            if m is False:
                p.flatten(v, free=False, validate_value=chk)
        else:
            raises(ValueError, lambda: p.flatten(v, free=m, validate_value=chk), 'flatten of an invalid value',
                   value=v, check=chk, pattern=str(p), free=m)
    return want


@case('C05', 200)
def validation(rng):
    s, p = setup(rng)
    for chk in (None, True, False):
        v = s.valid(rng)
        check_validate(s, p, v, chk, 'valid value')
        b = s.bad(rng)
        if b is not None:
            check_validate(s, p, b, chk, 'bad value')
        if s.kind != 'dict':
            check_validate(s, p, wrong_shape(s, rng), chk, 'wrong shape')
        elif s.members:
            w = s.valid(rng)
            ks = list(s.members)
            k = ks[rng.integers(0, len(ks))]
            if s.members[k].kind != 'dict':
                w[k] = wrong_shape(s.members[k], rng)
                check_validate(s, p, w, chk, 'member of a wrong shape')
            w = s.valid(rng)
            del w[k]
            check_validate(s, p, w, chk, 'missing key')


@case('C05', 100)
def fold_checks(rng):
    s, p = setup(rng)
    for chk in (None, True, False):
        for v in (s.valid(rng), s.bad(rng)):
            if v is None or (s.kind == 'dict' and not keys_full(s, v)):
                continue
            x = s.flat(v)
            if s.is_valid(v, chk):
                eqv(p.fold(x, free=False, validate_value=chk), v, 'fold of a valid vector', pattern=str(p))
            else:
                raises(ValueError, lambda: p.fold(x, free=False, validate_value=chk), 'fold of an invalid vector',
                       x=x, check=chk, pattern=str(p), settings=s.settings())


def keys_full(s, v):
    return set(v) == set(s.members) and all(m.kind != 'dict' or keys_full(m, v[k]) for k, m in s.members.items())


@case('C05', 30)
def constructor_refusals(rng):
    a = float(rng.normal())
    raises(ValueError, lambda: pg.NumericArrayPattern(shape=(2,), lb=a, ub=a), 'lb == ub')
    raises(ValueError, lambda: pg.NumericArrayPattern(shape=(2,), lb=a, ub=a - 1), 'lb > ub')
    raises(ValueError, lambda: pg.PSDSymmetricMatrixPattern(size=2, diag_lb=-0.1), 'negative diagonal bound')
    raises(ValueError, lambda: pg.SimplexArrayPattern(simplex_size=1, array_shape=(2,)), 'simplex of size one')


@case('C05', 60)
def validation_each_entry(rng):
    """a violation in any single entry is noticed, inclusive bounds are accepted"""
    s = [g_num, g_simp, g_psd, g_arr][rng.integers(0, 4)](rng)
    p = s.build()
    v = s.interior(rng)
    b = s
    while b.kind == 'arr':
        b = b.base
    for i in np.ndindex(*s.shape):
        w = v.copy()
        if b.kind == 'num':
            if b.lb > -INF:
                w[i] = b.lb
                check_validate(s, p, w, True, 'on the lower bound')
                w[i] = np.nextafter(b.lb, -INF)
                check_validate(s, p, w, True, 'just below the lower bound')
            if b.ub < INF:
                w[i] = b.ub
                check_validate(s, p, w, True, 'on the upper bound')
                w[i] = np.nextafter(b.ub, INF)
                check_validate(s, p, w, True, 'just above the upper bound')
        elif b.kind == 'psd':
            r, c = i[-2:]
            if r == c:
                w[i] = b.dlb
                check_validate(s, p, w, True, 'diagonal on the bound')
                w[i] = np.nextafter(b.dlb, -INF)
                check_validate(s, p, w, True, 'diagonal below the bound')
            else:
                w[i] += 1e-3
                check_validate(s, p, w, True, 'asymmetric')
        else:
            w[i] += 1e-9
            check_validate(s, p, w, True, 'sum off')
            w[i] -= 2e-9
            check_validate(s, p, w, True, 'sum off')


# ----------------------------------------------------------------- C06
@case('C06', 160)
def mode_resolution(rng):
    s, p = setup(rng)
    v = s.interior(rng)
    sel = select(s, rng)
    any_sel = any(np.any(a) for a in walk(sel))
    for arg in (True, False, None):
        mode = s.fd if arg is None else arg
        xs = s.flat(v) if mode is False else free_vec(s, rng)
        ops = {
            'flatten': lambda: p.flatten(v, free=arg, validate_value=False),
            'fold': lambda: p.fold(xs, free=arg, validate_value=False),
            'flat_length': lambda: p.flat_length(free=arg)}
        if any_sel or s.kind in ('dict', 'arr'):
            ops['flat_indices'] = lambda: p.flat_indices(sel, free=arg)
        if s.kind != 'num':
            ops['flat_names'] = lambda: list(p.flat_names(arg))
        for name, op in ops.items():
            if mode is None:
                raises(ValueError, op, '%s without a mode' % name, pattern=str(p), settings=s.settings())
                continue
            got = op()
            want = {'flatten': lambda: p.flatten(v, free=mode, validate_value=False),
                    'fold': lambda: p.fold(xs, free=mode, validate_value=False),
                    'flat_length': lambda: p.flat_length(free=mode),
                    'flat_indices': lambda: p.flat_indices(sel, free=mode),
                    'flat_names': lambda: list(p.flat_names(mode))}[name]()
            if name == 'flat_names':
                need(got == want and len(got) == s.length(mode), 'flat_names mode', got=got, want=want)
            else:
                eqv(got, want, '%s: mode resolved to %r' % (name, mode), 1e-9, settings=s.settings())
            if name == 'flatten':
                need(len(got) == s.length(mode), 'flatten mode', got=len(got), settings=s.settings())
                if mode is False:
                    eqv(got, s.flat(v), 'flatten in non-free mode', settings=s.settings())
            if name == 'flat_length':
                need(got == s.length(mode), 'flat_length mode', got=got, settings=s.settings())
            if name == 'fold' and mode is False:
                eqv(got, s.unflat(xs), 'fold in non-free mode', settings=s.settings())


@case('C06', 60)
def containers_ignore_member_defaults(rng):
    """the same container with other member defaults behaves the same"""
    s = [g_arr, g_dict, g_dict][rng.integers(0, 3)](rng)
    p = s.build()

    def flip(t):
        if t.kind == 'dict':
            return Dict([(k, flip(m)) for k, m in t.members.items()], g_fd(rng))
        if t.kind == 'arr':
            return Arr(t.ashape, flip(t.base), g_fd(rng))
        u = type(t).__new__(type(t))
        u.__dict__.update(t.__dict__)
        u.fd = g_fd(rng)
        return u
    t = flip(s)
    t.fd = s.fd
    q = t.build()
    v = s.interior(rng)
    sel = select(s, rng)
    for arg, mode in modes(s):
        eqv(q.flatten(v, free=arg, validate_value=False), p.flatten(v, free=arg, validate_value=False),
            'flatten does not depend on member defaults', 1e-9, settings=(s.settings(), t.settings()))
        x = p.flatten(v, free=arg, validate_value=False)
        eqv(q.fold(x, free=arg, validate_value=False), p.fold(x, free=arg, validate_value=False),
            'fold does not depend on member defaults', 1e-9, settings=(s.settings(), t.settings()))
        eqv(q.flat_indices(sel, free=arg), p.flat_indices(sel, free=arg),
            'flat_indices does not depend on member defaults', settings=(s.settings(), t.settings()))
        need(list(q.flat_names(arg)) == list(p.flat_names(arg)), 'flat_names does not depend on member defaults',
             settings=(s.settings(), t.settings()))
        need(q.flat_length(arg) == p.flat_length(arg), 'flat_length does not depend on member defaults')
    # operations that take no mode do not depend on any default
    eqv(np.asarray(q.freeing_jacobian(v, sparse=False)), np.asarray(p.freeing_jacobian(v, sparse=False)),
        'freeing_jacobian does not depend on defaults', 1e-9)


# ----------------------------------------------------------------- C07
@case('C07', 120)
def layout(rng):
    s, p = setup(rng)
    n = s.length(False)
    x = rng.permutation(n).astype(float)
    v = s.unflat(x)
    eqv(p.flatten(relayout(v, rng), free=False, validate_value=False), x, 'row-major layout (flatten)', pattern=str(p))
    eqv(p.fold(x, free=False, validate_value=False), v, 'row-major layout (fold)', pattern=str(p))


@case('C07', 120)
def layout_containers(rng):
    s = [g_arr, g_dict, g_dict][rng.integers(0, 3)](rng)
    p = s.build()
    v = s.interior(rng)
    for m in MODES:
        got = p.flatten(v, free=m, validate_value=False)
        if s.kind == 'arr':
            b = s.base.build()
            parts = [b.flatten(v[i], free=m, validate_value=False) for i in s.items()]
        else:
            parts = [t.build().flatten(v[k], free=m, validate_value=False) for k, t in s.members.items()]
        eqv(got, np.concatenate([np.zeros(0)] + parts), 'concatenation of the members (flatten, free=%s)' % m, 1e-12, pattern=str(p))
        x = got if not m else free_vec(s, rng)
        f = p.fold(x, free=m, validate_value=False)
        o = 0
        if s.kind == 'arr':
            n = s.base.length(m)
            for i in s.items():
                eqv(f[i], b.fold(x[o:o + n], free=m, validate_value=False), 'element %r (fold, free=%s)' % (i, m),
                    1e-12, pattern=str(p))
                o += n
        else:
            for k, t in s.members.items():
                n = t.length(m)
                eqv(f[k], t.build().fold(x[o:o + n], free=m, validate_value=False),
                    'member %s (fold, free=%s)' % (k, m), 1e-12, pattern=str(p))
                o += n


@case('C07', 120)
def names(rng):
    s, p = setup(rng)
    for arg, mode in modes(s):
        got = list(p.flat_names(arg))
        need(len(got) == s.length(mode), 'as many names as flat entries', got=got, free=arg, pattern=str(p))
        want = s.names(mode)
        if want is not None:
            need([str(g) for g in got] == want, 'names follow the layout', got=got, want=want, free=arg, pattern=str(p))
        else:
            need(len(set(got)) == len(got), 'names are distinct', got=got)
            need([str(g) for g in got] == [str(i) for i in range(s.length(mode))], 'names number the entries', got=got)
    if s.kind == 'dict':
        d = ['/', '', '::'][rng.integers(0, 3)]
        for m in MODES:
            got = [str(g) for g in p.flat_names(m, delim=d)]
            want = s_names(s, m, d)
            need(got == want, 'names with a delimiter', got=got, want=want, delim=d)


def s_names(s, free, delim):
    out = []
    for k, t in s.members.items():
        ns = t.names(free)
        if ns is None:
            ns = [str(i) for i in range(t.length(free))]
        out.extend(k + delim + n for n in ns)
    return out


# ----------------------------------------------------------------- C08
@case('C08', 200)
def flat_indices(rng):
    s, p = setup(rng)
    sel = select(s, rng)
    check_indices(s, p, sel, rng)


def check_indices(s, p, sel, rng):
    nf, need_, allow, exact = sel_sets(s, sel)
    for arg, mode in modes(s):
        got = p.flat_indices(relayout(sel, rng), free=arg)
        need(isinstance(got, np.ndarray) and got.ndim == 1, 'indices are a vector', got=got)
        need(np.issubdtype(got.dtype, np.integer), 'indices are integers', got=got, dtype=got.dtype, pattern=str(p),
             sel=sel)
        g = [int(i) for i in got]
        if not mode:
            need(g == nf, 'non-free indices', got=g, want=nf, pattern=str(p), sel=sel)
            v = s.unflat(np.arange(s.length(False)))
            if s.kind != 'dict':
                eqv(p.flatten(v, free=False, validate_value=False)[got], v[sel], 'indices pick the selected entries')
        else:
            need(len(set(g)) == len(g), 'indices are distinct', got=g, pattern=str(p), sel=sel)
            need(all(0 <= i < s.length(True) for i in g), 'indices are in range', got=g, pattern=str(p), sel=sel)
            need(need_ <= set(g), 'every free entry a selected entry depends on', got=g, missing=need_ - set(g),
                 pattern=str(p), sel=sel)
            need(set(g) <= allow, 'only entries of selected elements', got=g, extra=set(g) - allow, pattern=str(p),
                 sel=sel)
            if exact:
                need(g == sorted(need_), 'exact free indices', got=g, want=sorted(need_), pattern=str(p), sel=sel)


@case('C08', 60)
def flat_indices_single_and_none(rng):
    s, p = setup(rng)
    check_indices(s, p, select(s, rng, 0.0), rng)
    check_indices(s, p, select(s, rng, 1.0), rng)
    if s.kind != 'dict':
        for i in np.ndindex(*s.shape):
            sel = np.zeros(s.shape, dtype=bool)
            sel[i] = True
            check_indices(s, p, sel, rng)


@case('C08', 40)
def flat_indices_numeric_dependence(rng):
    """free indices contain every free entry the selected entries really depend on (by perturbation)"""
    s, p = setup(rng)
    n = s.length(True)
    x = free_vec(s, rng, 0.7)
    v = p.fold(x, free=True)
    sel = select(s, rng)
    got = set(int(i) for i in p.flat_indices(sel, free=True))
    for i in range(n):
        y = x.copy()
        y[i] += 0.37
        w = p.fold(y, free=True)
        if s.kind == 'dict':
            dep = differs(v, w, sel)
        else:
            dep = bool(np.any(np.abs(v - w)[sel] > 1e-12))
        if dep:
            need(i in got, 'a selected entry depends on free entry %d' % i, got=got, sel=sel, pattern=str(p))


def differs(v, w, sel):
    if isinstance(sel, dict):
        return any(differs(v[k], w[k], sel[k]) for k in sel)
    return bool(np.any(np.abs(np.asarray(v) - np.asarray(w))[sel] > 1e-12))


# ----------------------------------------------------------------- C09
def dense(j):
    return np.asarray(j.todense()) if hasattr(j, 'todense') else np.asarray(j)


def numjac(f, x, h=1e-5):
    cols = []
    for i in range(len(x)):
        e = np.zeros(len(x))
        s = h * max(1.0, abs(x[i]))
        e[i] = s
        d1 = (f(x + e) - f(x - e)) / (2 * s)
        d2 = (f(x + e / 2) - f(x - e / 2)) / s
        cols.append((4 * d2 - d1) / 3)
    return np.array(cols).T.reshape(-1, len(x)) if cols else np.zeros((len(f(x)), 0))


def mild(s, rng):
    """an interior value that is not too close to the boundary"""
    if s.kind == 'dict':
        return {k: mild(m, rng) for k, m in s.members.items()}
    if s.kind == 'arr':
        return s._fill(lambda i: mild(s.base, rng))
    if s.kind == 'num':
        u = rng.uniform(0.15, 0.85, s.shape)
        if s.lb > -INF and s.ub < INF:
            return s.lb + (s.ub - s.lb) * u
        if s.lb > -INF:
            return s.lb + 0.3 + 3 * u
        if s.ub < INF:
            return s.ub - 0.3 - 3 * u
        return 2 * u - 1
    if s.kind == 'simp':
        e = rng.uniform(0.2, 1.0, s.shape)
        return e / e.sum(axis=-1, keepdims=True)
    L = np.tril(rng.uniform(-0.6, 0.6, s.shape))
    L[np.diag_indices(s.n)] = rng.uniform(0.6, 1.5, s.n)
    m = L @ L.T
    return 0.5 * (m + m.T) + s.dlb * np.eye(s.n)


def blocks(s):
    """(flat sizes, free sizes) of the leaves and whether the leaf is a matrix"""
    if s.kind == 'dict':
        return [b for m in s.members.values() for b in blocks(m)]
    if s.kind == 'arr':
        return blocks(s.base) * len(s.items())
    if s.kind == 'simp':
        return [(s.k, s.k - 1, s)] * int(np.prod(s.ashape, dtype=int))
    if s.kind == 'num':
        return [(1, 1, s)] * s.length(False)
    return [(s.length(False), s.length(True), s)]


def close_m(a, b, what, **k):
    need(np.shape(a) == np.shape(b), what + ': shape', got=np.shape(a), want=np.shape(b), **k)
    sc = max(1.0, float(np.max(np.abs(b))) if np.size(b) else 1.0)
    need(np.all(np.abs(a - b) <= 5e-6 * sc), what, got=a, want=b, **k)


def small_any(rng):
    while True:
        s = g_any(rng)
        if s.length(False) <= 40:
            return s


@case('C09', 70)
def jacobians(rng):
    s, p = setup(rng, small_any)
    v = mild(s, rng)
    x = p.flatten(v, free=True)
    n, m = s.length(False), s.length(True)
    U = p.unfreeing_jacobian(v, sparse=False)
    F = p.freeing_jacobian(v, sparse=False)
    for name, J, shp in (('unfreeing', U, (n, m)), ('freeing', F, (m, n))):
        need(type(J) is np.ndarray and J.ndim == 2, '%s: the dense Jacobian is a plain 2-d array' % name, got=type(J),
             pattern=str(p))
        need(J.shape == shp, '%s Jacobian shape' % name, got=J.shape, want=shp, pattern=str(p))
    Us, Fs = p.unfreeing_jacobian(v, sparse=True), p.freeing_jacobian(v, sparse=True)
    import scipy.sparse as sps
    need(sps.issparse(Us) and sps.issparse(Fs), 'the sparse Jacobians are sparse matrices', got=(type(Us), type(Fs)))
    close_m(dense(Us), U, 'sparse and dense unfreeing Jacobians agree', pattern=str(p))
    close_m(dense(Fs), F, 'sparse and dense freeing Jacobians agree', pattern=str(p))
    U1, F1 = p.unfreeing_jacobian(v), p.freeing_jacobian(v)
    close_m(dense(U1), U, 'the default unfreeing Jacobian', pattern=str(p))
    close_m(dense(F1), F, 'the default freeing Jacobian', pattern=str(p))
    Un = numjac(lambda y: s.flat(p.fold(y, free=True)), x)
    close_m(U, Un, 'unfreeing Jacobian is the derivative', pattern=str(p), settings=s.settings())
    close_m(F @ U, np.eye(m), 'freeing times unfreeing is the identity', pattern=str(p))
    # freeing Jacobian: entry by entry where perturbed values still make sense, along symmetric directions for
    # matrices
    def free_of(flat):
        return p.flatten(s.unflat(flat), free=True, validate_value=False)
    xf = s.flat(v)
    r = c = 0
    for (a, b, leaf) in blocks(s):
        if leaf.kind == 'psd':
            for i in range(leaf.n):
                for j in range(i + 1):
                    d = np.zeros(n)
                    d[c + i * leaf.n + j] = 1.0
                    d[c + j * leaf.n + i] = 1.0
                    dn = numjac(lambda t: free_of(xf + t[0] * d), np.zeros(1))[:, 0]
                    close_m(F @ d, dn, 'freeing Jacobian along a symmetric direction', pattern=str(p))
        else:
            for i in range(a):
                d = np.zeros(n)
                d[c + i] = 1.0
                dn = numjac(lambda t: free_of(xf + t[0] * d), np.zeros(1), 1e-4)[:, 0]
                close_m(F @ d, dn, 'freeing Jacobian column %d' % (c + i), pattern=str(p), settings=s.settings())
        M = F[:, c:c + a].copy()
        M[r:r + b] = 0
        need(np.all(M == 0), 'freeing Jacobian is block diagonal', got=F, pattern=str(p))
        M = U[:, r:r + b].copy()
        M[c:c + a] = 0
        need(np.all(M == 0), 'unfreeing Jacobian is block diagonal', got=U, pattern=str(p))
        r += b
        c += a


# ----------------------------------------------------------------- C10
def g_logdet(rng):
    return g_num(rng) if rng.integers(0, 2) else g_dict(rng, 2, g_num)


@case('C10', 150)
def logdets(rng):
    s, p = setup(rng, g_logdet)
    v = s.interior(rng)
    lf, lu = p.log_abs_det_freeing_jacobian(v), p.log_abs_det_unfreeing_jacobian(v)
    need(np.shape(lf) == () and np.shape(lu) == (), 'log determinants are numbers', got=(lf, lu))
    F, U = dense(p.freeing_jacobian(v)), dense(p.unfreeing_jacobian(v))
    for got, J, nm in ((lf, F, 'freeing'), (lu, U, 'unfreeing')):
        want = np.linalg.slogdet(J)[1]
        need(abs(got - want) <= 1e-7 * max(1, abs(want)), 'log |det| of the %s Jacobian' % nm, got=got, want=want,
             pattern=str(p), settings=s.settings(), value=v)
    # against the definition
    U2 = 0.0
    x = p.flatten(v, free=True, validate_value=False)
    d = numjac_diag(lambda y: s.flat(p.fold(y, free=True)), x)
    U2 = float(np.sum(np.log(np.abs(d))))
    need(abs(lu - U2) <= 1e-5 * max(1, abs(U2), len(x)), 'log |det| against the derivative', got=lu, want=U2,
         pattern=str(p), value=v)
    need(abs(lf + lu) <= 1e-7 * max(1, abs(lf)), 'the two are negatives of each other', got=(lf, lu))


def numjac_diag(f, x, h=1e-5):
    d1 = (f(x + h) - f(x - h)) / (2 * h)
    d2 = (f(x + h / 2) - f(x - h / 2)) / h
    return (4 * d2 - d1) / 3


# ----------------------------------------------------------------- C11
def probe_equal(s, p, q, rng):
    """q behaves as the pattern described by s"""
    need(type(q) is type(p), 'same type', got=type(q))
    need(q == p and p == q, 'compares equal', pattern=str(p), got=str(q))
    need(not (p != q), 'is not unequal')
    v = s.interior(rng)
    for m in MODES:
        need(q.flat_length(free=m) == s.length(m), 'restored length', pattern=str(p))
    if s.fd is not None:
        need(q.flat_length() == s.length(s.fd), 'restored free default', pattern=str(p), settings=s.settings())
    else:
        raises(ValueError, lambda: q.flat_length(), 'restored absence of a free default', pattern=str(p))
    x = p.flatten(v, free=True, validate_value=False)
    eqv(q.flatten(v, free=True, validate_value=False), x, 'restored flatten', 1e-9, pattern=str(p), settings=s.settings())
    eqv(q.fold(x, free=True), p.fold(x, free=True), 'restored fold', 1e-9, pattern=str(p), settings=s.settings())
    need(key_order(s, q.fold(x, free=True)), 'restored key order', pattern=str(p))
    y = s.flat(v)
    eqv(q.fold(y, free=False, validate_value=False), s.unflat(y), 'restored non-free fold', pattern=str(p))
    for b in (s.valid(rng), s.bad(rng)):
        if b is not None:
            for chk in (None, True, False):
                need(bool(q.validate_folded(b, validate_value=chk)[0]) == s.is_valid(b, chk), 'restored validation',
                     value=b, check=chk, settings=s.settings())
    if s.kind == 'dict':
        need(list(q.keys()) == list(s.members), 'restored members', got=list(q.keys()))
        for k, t in s.members.items():
            probe_equal(t, p[k], q[k], rng)
    if s.kind == 'arr':
        need(tuple(q.array_shape()) == s.ashape, 'restored array shape')
        probe_equal(s.base, p.base_pattern(), q.base_pattern(), rng)
    if s.kind == 'num':
        need(tuple(q.bounds()) == (s.lb, s.ub) and tuple(q.shape()) == s.shape and q.default_validate == s.dv and
             q.free_default == s.fd, 'restored settings', got=(q.bounds(), q.shape(), q.default_validate,
                                                                q.free_default), want=s.settings())


@case('C11', 120)
def json_roundtrip(rng):
    s, p = setup(rng)
    js = p.to_json()
    need(isinstance(js, str), 'JSON is a string', got=js)
    json.loads(js)
    for q in (pg.get_pattern_from_json(js), type(p).from_json(js)):
        probe_equal(s, p, q, rng)
        need(q.to_json() == js, 'JSON again', got=q.to_json(), want=js)
    need(s.build() == p, 'a pattern built the same way is equal', pattern=str(p))


def mutate(s, rng):
    """a spec with exactly one setting changed"""
    u = type(s).__new__(type(s))
    u.__dict__.update(s.__dict__)
    other_fd = [x for x in (None, True, False) if x is not s.fd]
    if s.kind == 'dict':
        mem = list(s.members.items())
        r = rng.integers(0, 5) if mem else [0, 4][rng.integers(0, 2)]
        i = rng.integers(0, len(mem)) if mem else 0
        if r == 0:
            u.fd = other_fd[rng.integers(0, 2)]
        elif r == 1:
            mem[i] = (mem[i][0], mutate(mem[i][1], rng))
        elif r == 2:
            mem[i] = (mem[i][0] + '_', mem[i][1])
        elif r == 3 and len(mem) > 1:
            mem = mem[1:] + mem[:1]
        elif r == 3 or r == 4:
            mem.append(('extra', g_num(rng)))
        u.members = OrderedDict(mem)
        return u
    if s.kind == 'arr':
        r = rng.integers(0, 3)
        if r == 0:
            u.fd = other_fd[rng.integers(0, 2)]
        elif r == 1:
            u.base = mutate(s.base, rng)
            u.shape = u.ashape + u.base.shape
        else:
            u.ashape = (s.ashape[0] + 1,) + s.ashape[1:]
            u.shape = u.ashape + u.base.shape
        return u
    r = rng.integers(0, 4)
    if r == 0:
        u.fd = other_fd[rng.integers(0, 2)]
    elif r == 1:
        u.dv = not s.dv
    elif r == 2:
        if s.kind == 'num':
            if s.cls == 'scalar':
                u.dv = not s.dv
            else:
                u.shape = (s.shape[0] + 1,) + s.shape[1:]
        elif s.kind == 'simp':
            u.ashape = s.ashape + (2,)
            u.shape = u.ashape + (s.k,)
        else:
            u.n = s.n + 1
            u.shape = (u.n, u.n)
    else:
        if s.kind == 'num':
            k = rng.integers(0, 2)
            if k == 0:
                u.lb = s.lb - 1 if s.lb > -INF else (min(s.ub, 0) - 1.0)
            else:
                u.ub = s.ub + 1 if s.ub < INF else (max(s.lb, 0) + 1.0)
        elif s.kind == 'simp':
            u.k = s.k + 1
            u.shape = u.ashape + (u.k,)
        else:
            u.dlb = s.dlb + 0.25
    return u


@case('C11', 200)
def equality_discriminates(rng):
    s, p = setup(rng)
    t = mutate(s, rng)
    q = t.build()
    need(s.settings() != t.settings(), 'mutation changes the settings')
    need(not (p == q) and p != q, 'patterns with different settings differ', a=s.settings(), b=t.settings())
    # and the difference survives JSON
    a, b = pg.get_pattern_from_json(p.to_json()), pg.get_pattern_from_json(q.to_json())
    need(a != b and a == p and b == q, 'differences survive JSON', a=s.settings(), b=t.settings())


@case('C11', 40)
def equality_across_types(rng):
    n = int(rng.integers(1, 4))
    ps = [pg.NumericArrayPattern(shape=(n,)), pg.NumericVectorPattern(length=n), pg.PSDSymmetricMatrixPattern(size=n),
          pg.SimplexArrayPattern(simplex_size=n + 1, array_shape=(1,)),
          pg.PatternArray(array_shape=(n,), base_pattern=pg.NumericScalarPattern()), pg.PatternDict()]
    if n == 1:
        ps.append(pg.NumericScalarPattern())
    for i, a in enumerate(ps):
        for j, b in enumerate(ps):
            need((a == b) == (i == j), 'different types are different', a=str(a), b=str(b))
        need(a != 3 and a != 'x' and not (a == None), 'a pattern differs from other objects')   # noqa
        for j, b in enumerate(ps):
            if i != j:
                raises(ValueError, lambda: type(b).from_json(a.to_json()), 'JSON of a different type', a=str(a),
                       b=str(type(b)))


@case('C11', 10)
def registry(rng):
    class Mine(pg.NumericVectorPattern):
        pass
    Mine.__name__ = 'Mine%d' % rng.integers(0, 10 ** 9)
    m = Mine(length=3, lb=-1.0)
    raises((KeyError, ValueError), lambda: pg.get_pattern_from_json(m.to_json()), 'unregistered type')
    d = pg.PatternDict()
    d['m'] = m
    raises((KeyError, ValueError), lambda: pg.get_pattern_from_json(d.to_json()), 'unregistered member type')
    pg.register_pattern_json(Mine)
    need(pg.get_pattern_from_json(m.to_json()) == m, 'registered type')
    need(pg.get_pattern_from_json(d.to_json()) == d, 'registered member type')
    raises(ValueError, lambda: pg.register_pattern_json(Mine), 'registering twice')
    pg.register_pattern_json(Mine, allow_overwrite=True)
    need(pg.get_pattern_from_json(m.to_json()) == m, 're-registered type')
    for c in (pg.NumericVectorPattern, pg.NumericScalarPattern, pg.NumericArrayPattern, pg.PatternDict, pg.PatternArray,
              pg.PSDSymmetricMatrixPattern, pg.SimplexArrayPattern):
        raises(ValueError, lambda: pg.register_pattern_json(c), 'registering twice')
        raises(ValueError, lambda: pg.register_pattern_json(c, allow_overwrite=False), 'registering twice')
    raises((KeyError, ValueError), lambda: pg.get_pattern_from_json(json.dumps({'a': 1})), 'no type in the JSON')


# ----------------------------------------------------------------- C12
@case('C12', 50)
def save_load(rng):
    s, p = setup(rng)
    v = s.valid(rng)
    extras = {}
    for k in list(rng.permutation(['x', 'extra', 'hess', 'folded', 'names'])[:rng.integers(0, 4)]):
        extras[str(k)] = rng.normal(size=g_shape(rng, 0, 3)) if rng.integers(0, 2) else rng.integers(0, 9, 4)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'a.npz' if rng.integers(0, 2) else 'b')
        keep = copyv(v)
        pg.save_folded(f, v, p, **extras)
        eqv(v, keep, 'saving does not change the value')
        g = f if f.endswith('.npz') else f + '.npz'
        w, q, data = pg.load_folded(g)
        need(q == p and type(q) is type(p), 'loaded pattern', got=str(q), want=str(p))
        eqv(w, v, 'loaded value', pattern=str(p))
        need(key_order(s, w), 'loaded key order')
        for k, x in extras.items():
            y = data[k]
            need(np.array_equal(y, x) and y.dtype == np.asarray(x).dtype, 'extra array', name=k, got=y, want=x)
        b = s.bad(rng)
        if b is not None and not s.is_valid(b, None):
            h = os.path.join(d, 'bad.npz')
            raises(ValueError, lambda: pg.save_folded(h, b, p), 'saving an invalid value', value=b, pattern=str(p))
            need(not os.path.exists(h), 'nothing is written for an invalid value')
    if rng.integers(0, 3) == 0:
        buf = io.BytesIO()
        pg.save_folded(buf, v, p)
        buf.seek(0)
        w, q, data = pg.load_folded(buf)
        need(q == p, 'loaded pattern from a buffer')
        eqv(w, v, 'loaded value from a buffer')


@case('C12', 20)
def save_load_types(rng):
    """values that are not of double precision are not rounded"""
    n = int(rng.integers(0, 4))
    p = pg.PatternDict()
    p['a'] = pg.NumericVectorPattern(n)
    vals = [rng.integers(-2 ** 62, 2 ** 62, n), rng.integers(0, 2, n).astype(bool),
            rng.normal(size=n).astype(np.longdouble) / 3, rng.normal(size=n) / 3]
    x = vals[rng.integers(0, len(vals))]
    for q, v in ((p['a'], x), (p, {'a': x})):
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, 'a.npz')
            pg.save_folded(f, v, q)
            w = pg.load_folded(f)[0]
            w = w['a'] if isinstance(w, dict) else w
            need(np.array_equal(w, x) and w.dtype == x.dtype, 'loaded value', got=w, want=x)


# ----------------------------------------------------------------- C13
@case('C13', 150)
def dict_history(rng):
    fd = g_fd(rng)
    p = pg.PatternDict(free_default=fd)
    ref = OrderedDict()
    pats = {}
    locked = False
    parent = None
    subs = []
    for step in range(int(rng.integers(1, 14))):
        r = rng.integers(0, 12)
        k = str(NAMES[rng.integers(0, 5)])
        if r < 6:
            s = [g_num, g_simp, g_psd, g_arr, lambda g: g_dict(g, 0)][rng.integers(0, 5)](rng)
            q = s.build()
            if locked:
                raises(ValueError, lambda: p.__setitem__(k, q), 'setting a member of a locked dictionary')
            else:
                p[k] = q
                ref[k] = s
                pats[k] = q
                if s.kind == 'dict':
                    subs.append((s, q))
        elif r < 9:
            if locked:
                if k in ref or rng.integers(0, 2):
                    raises(ValueError, lambda: p.__delitem__(k), 'deleting a member of a locked dictionary')
            elif k in ref:
                del p[k]
                del ref[k]
                del pats[k]
            else:
                raises(KeyError, lambda: p.__delitem__(k), 'deleting a missing member')
        elif r == 9 and rng.integers(0, 3) == 0:
            p.lock()
            locked = True
        elif r == 10 and rng.integers(0, 3) == 0:
            parent = pg.PatternDict()
            parent['first'] = pg.NumericScalarPattern()
            parent['sub'] = p
            locked = True
        # consistency
        need(list(p.keys()) == list(ref), 'keys in insertion order', got=list(p.keys()), want=list(ref))
        for k2, s2 in ref.items():
            need(p[k2] is pats[k2] or p[k2] == pats[k2], 'each key maps to the last pattern set', key=k2)
        for m in MODES:
            need(isinstance(p.flat_length(free=m), (int, np.integer)) and
                 p.flat_length(free=m) == sum(s2.length(m) for s2 in ref.values()), 'lengths are the sums', free=m,
                 got=p.flat_length(free=m), keys=list(ref))
            if parent is not None:
                need(parent.flat_length(free=m) == 1 + p.flat_length(free=m), 'lengths of the parent', free=m)
        for (s2, q2) in subs:
            raises(ValueError, lambda: q2.__setitem__('new', pg.NumericScalarPattern()), 'members are locked')
            k3 = next(iter(s2.members), 'new')
            raises(ValueError, lambda: q2.__delitem__(k3), 'members are locked')
            raises(ValueError, lambda: q2.__setitem__(k3, pg.NumericScalarPattern()), 'members are locked')
            need(list(q2.keys()) == list(s2.members) and q2.flat_length(free=True) == s2.length(True),
                 'a locked member is unchanged')
    if ref:
        S = Dict(list(ref.items()), fd)
        v = S.interior(rng)
        for m in MODES:
            x = p.flatten(v, free=m, validate_value=False)
            need(len(x) == S.length(m), 'flatten after the history')
            w = p.fold(x, free=m, validate_value=False)
            eqv(w, v, 'round trip after the history', 1e-6)
            need(list(w.keys()) == list(ref), 'keys after the history')


@case('C13', 40)
def dict_locks(rng):
    depth = int(rng.integers(1, 4))
    inner = pg.PatternDict()
    inner['x'] = pg.NumericVectorPattern(length=3)
    chain = [inner]
    for _ in range(depth):
        d = pg.PatternDict()
        d['sub'] = chain[-1]
        chain.append(d)
    for d in chain[:-1]:
        n = (d.flat_length(free=True), d.flat_length(free=False), list(d.keys()))
        k = list(d.keys())[0]
        for op in (lambda: d.__setitem__('y', pg.NumericScalarPattern()), lambda: d.__setitem__(k, pg.NumericScalarPattern()),
                   lambda: d.__delitem__(k)):
            raises(ValueError, op, 'a member dictionary is locked')
        need(n == (d.flat_length(free=True), d.flat_length(free=False), list(d.keys())), 'a refused change changes nothing')
    top = chain[-1]
    top['z'] = pg.NumericScalarPattern()
    need(top.flat_length(free=True) == 4, 'the outermost dictionary is not locked')
    top.lock()
    raises(ValueError, lambda: top.__setitem__('w', pg.NumericScalarPattern()), 'locked')
    raises(ValueError, lambda: top.__delitem__('z'), 'locked')
    raises((ValueError, KeyError), lambda: top.__delitem__('nope'), 'locked')
    top.lock()
    raises(ValueError, lambda: top.__setitem__('w', pg.NumericScalarPattern()), 'locked twice is locked')
    # replacing a member pattern by a dictionary locks it
    d = pg.PatternDict()
    e = pg.PatternDict()
    e['q'] = pg.NumericScalarPattern()
    d['a'] = pg.NumericScalarPattern()
    d['a'] = e
    raises(ValueError, lambda: e.__setitem__('r', pg.NumericScalarPattern()), 'replaced in as a member')
    need(d.flat_length(free=True) == 1, 'length after replacement')
    del d['a']
    raises(ValueError, lambda: e.__setitem__('r', pg.NumericScalarPattern()), 'a lock is for ever')
    d['b'] = pg.NumericVectorPattern(length=2)
    need(d.flat_length(free=True) == 2 and list(d.keys()) == ['b'], 'length after deletion')


# ----------------------------------------------------------------- C22
def snapshot(p, s):
    return (p.to_json(), s.length(True), p.flat_length(free=True), p.flat_length(free=False), str(p))


@case('C22', 120)
def purity(rng):
    s, p = setup(rng, small_any)
    v = relayout(s.interior(rng), rng)
    keep = copyv(v)
    sel = select(s, rng)
    ksel = copyv(sel)
    x = free_vec(s, rng)
    y = s.flat(v)
    kx, ky = x.copy(), y.copy()
    before = snapshot(p, s)
    m = bool(rng.integers(0, 2))
    ops = [('flatten', lambda: p.flatten(v, free=m, validate_value=False)),
           ('fold free', lambda: p.fold(x, free=True)),
           ('fold', lambda: p.fold(y, free=False, validate_value=False)),
           ('validate', lambda: p.validate_folded(v, validate_value=True)),
           ('flat_indices', lambda: p.flat_indices(sel, free=m)),
           ('freeing_jacobian', lambda: dense_(p.freeing_jacobian(v))),
           ('unfreeing_jacobian', lambda: dense_(p.unfreeing_jacobian(v))),
           ('flat_names', lambda: list(p.flat_names(m))),
           ('as_dict', lambda: json.dumps(p.as_dict())),
           ('to_json', lambda: p.to_json()),
           ('empty', lambda: p.empty(valid=True)),
           ('str', lambda: str(p))]
    if s.has_logdet():
        ops += [('ladf', lambda: p.log_abs_det_freeing_jacobian(v)),
                ('ladu', lambda: p.log_abs_det_unfreeing_jacobian(v))]
    order = list(rng.permutation(len(ops)))
    first = {}
    for i in order + order[::-1]:
        name, op = ops[i]
        r = op()
        if name in first:
            a = first[name]
            if isinstance(a, (str, list, tuple)):
                need(a == r, 'repeating %s gives the same answer' % name, got=r, want=a, pattern=str(p))
            else:
                eqv(r, a, 'repeating %s gives the same answer' % name, 1e-9, pattern=str(p))
        else:
            first[name] = copyv(r) if isinstance(r, (dict, np.ndarray)) else r
        if isinstance(r, np.ndarray) and name in ('flat_indices', 'empty', 'flatten', 'fold free'):
            if r.size and r.flags.writeable:
                # destroying a result must not change the pattern or the arguments
                r[...] = 0
        eqv(v, keep, '%s does not change its argument' % name, pattern=str(p))
        eqv(sel, ksel, '%s does not change its argument' % name, pattern=str(p))
        eqv(x, kx, '%s does not change its argument' % name, pattern=str(p))
        eqv(y, ky, '%s does not change its argument' % name, pattern=str(p))
        need(snapshot(p, s) == before, '%s does not change the pattern' % name, pattern=str(p))
        if isinstance(v, dict):
            need(list(v) == list(keep), '%s does not change the keys of its argument' % name)


def dense_(j):
    return np.array(j.todense()) if hasattr(j, 'todense') else np.array(j)


@case('C22', 40)
def numbers_in_dictionaries(rng):
    """members given as plain numbers stay as they are"""
    p, q = pg.PatternDict(), pg.PatternDict()
    q['s'] = pg.NumericScalarPattern(lb=0)
    p['t'], p['q'] = pg.NumericScalarPattern(), q
    d = {'t': float(rng.normal()), 'q': {'s': float(np.exp(rng.normal()))}, 'extra': 3}
    if rng.integers(0, 2):
        d = OrderedDict(reversed(list(d.items())))
    keep = (list(d), type(d), dict(d), dict(d['q']), d['q'])
    for op in (lambda: p.flatten(d, free=True), lambda: p.flatten(d, free=False), lambda: p.validate_folded(d),
               lambda: p.validate_folded(d, validate_value=False), lambda: p.freeing_jacobian(d),
               lambda: p.unfreeing_jacobian(d, sparse=False), lambda: p.log_abs_det_freeing_jacobian(d),
               lambda: p.log_abs_det_unfreeing_jacobian(d)):
        op()
        need(list(d) == keep[0] and all(d[k] is keep[2][k] for k in d) and d['q'] is keep[4]
             and list(d['q']) == list(keep[3]) and d['q']['s'] is keep[3]['s'], 'the dictionary is not changed', got=d)


@case('C22', 150)
def no_aliasing(rng):
    s, p = setup(rng)
    v = s.interior(rng)
    for m in MODES:
        f = p.flatten(v, free=m, validate_value=False)
        for a in walk(v):
            need(not np.shares_memory(f, a), 'flatten(free=%s) does not share storage with its argument' % m,
                 pattern=str(p))
        kv, kf = copyv(v), f.copy()
        if f.flags.writeable:
            f += 1.0
            eqv(v, kv, 'changing the flat vector does not change the value', pattern=str(p))
    x = free_vec(s, rng)
    w = p.fold(x, free=True)
    for a in walk(w):
        need(not np.shares_memory(a, x), 'fold(free=True) does not share storage with its argument', pattern=str(p))
    kw = copyv(w)
    x += 1.0
    eqv(w, kw, 'changing the free vector does not change the folded value', pattern=str(p))
    # a view as an argument
    big = np.zeros(2 * s.length(True) + 3)
    z = big[1:1 + s.length(True)]
    w = p.fold(z, free=True)
    for a in walk(w):
        need(not np.shares_memory(a, big), 'fold(free=True) of a view does not share storage', pattern=str(p))
    # two results do not share storage with each other
    y = free_vec(s, rng)
    w1, w2 = p.fold(y, free=True), p.fold(y, free=True)
    for a in walk(w1):
        for b in walk(w2):
            need(not np.shares_memory(a, b), 'two results do not share storage', pattern=str(p))
    e1, e2 = p.empty(valid=True), p.empty(valid=True)
    for a in walk(e1):
        for b in walk(e2):
            need(not np.shares_memory(a, b), 'two empty values do not share storage', pattern=str(p))


@case('C22', 60)
def no_aliasing_integers(rng):
    """also when the argument is already a contiguous integer or boolean array"""
    s = Num(g_shape(rng), -INF, INF, g_dv(rng), None)
    p = s.build()
    v = rng.integers(0, 5, s.shape)
    for m in MODES:
        f = p.flatten(v, free=m)
        need(not np.shares_memory(f, v), 'flatten(free=%s) of integers' % m)
    x = rng.integers(0, 5, s.length(True))
    w = p.fold(x, free=True)
    need(not np.shares_memory(w, x), 'fold(free=True) of integers')
    for value in (True, False):
        b = p.empty_bool(value)
        need(b.shape == s.shape and b.dtype == bool and np.all(b == value), 'empty_bool', got=b)


# ----------------------------------------------------------------- extreme sizes
@case('C10', 40)
def logdets_of_large_arrays(rng):
    n = int(rng.integers(300, 900))
    lb, ub = [(-INF, INF), (0.0, INF), (-INF, 1.0), (0.0, 1.0)][rng.integers(0, 4)]
    p = pg.NumericVectorPattern(n, lb=lb, ub=ub)
    t = 10.0 ** rng.uniform(-6, -1) * rng.uniform(0.5, 1, n)
    x = t if lb == 0 else 1 - t
    q = pg.PatternDict()
    q['a'], q['b'] = p, pg.NumericScalarPattern(lb=0)
    y = {'a': x, 'b': np.array([2.0])}
    if lb == 0 and ub == 1:
        want = np.sum(np.log(x) + np.log(1 - x))
    elif lb == 0:
        want = np.sum(np.log(x))
    elif ub == 1:
        want = np.sum(np.log(1 - x))
    else:
        want = 0.0
    for o, v, w in ((p, x, want), (q, y, want + np.log(2.0))):
        lf, lu = o.log_abs_det_freeing_jacobian(v), o.log_abs_det_unfreeing_jacobian(v)
        need(abs(lu - w) <= 1e-6 * max(1, abs(w)), 'log |det| of the unfreeing Jacobian, many entries', got=lu, want=w, n=n,
             bounds=(lb, ub))
        need(abs(lf + w) <= 1e-6 * max(1, abs(w)), 'log |det| of the freeing Jacobian, many entries', got=lf, want=-w, n=n,
             bounds=(lb, ub))


@case('C09', 30)
def small_derivatives(rng):
    n = int(rng.integers(1, 4))
    dlb = float(rng.integers(0, 2))
    p = pg.PSDSymmetricMatrixPattern(n, diag_lb=dlb)
    L = np.tril(rng.uniform(-0.5, 0.5, (n, n)))
    L[np.diag_indices(n)] = rng.uniform(0.6, 1.5, n)
    if dlb:
        v = L @ L.T + np.eye(n)
    else:
        v = np.diag(10.0 ** rng.uniform(-12, 0, n))
    v = 0.5 * (v + v.T)
    s = 10.0 ** rng.uniform(-12, 12)
    q = pg.NumericVectorPattern(3, lb=0)
    r = pg.SimplexArrayPattern(3, (2,))
    w = np.array([[1e-11, 1e-3, 1 - 1e-3 - 1e-11], [0.2, 0.3, 0.5]])
    d = pg.PatternDict()
    d['p'], d['q'], d['r'] = p, q, r
    for o, x in ((p, v), (q, s * rng.uniform(0.5, 1, 3)), (r, w), (d, {'p': v, 'q': np.full(3, s), 'r': w})):
        for f in (o.freeing_jacobian, o.unfreeing_jacobian):
            a, b = dense(f(x, sparse=True)), f(x, sparse=False)
            need(a.shape == b.shape and np.all(np.abs(a - b) <= 1e-9 * np.abs(b)),
                 'sparse and dense Jacobians agree entry by entry', got=a, want=b, pattern=str(o), value=x)

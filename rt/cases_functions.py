"""Runtime contracts of the function wrappers, optimization tools and derivative rules (C14-C21, C23)."""
import contextlib
import io
from collections import namedtuple
import itertools
import numpy as np
import scipy.sparse as sps
import autograd
import autograd.numpy as anp
import autograd.scipy.special as asp
import scipy.special as osp_special
import paragami as pg
from autograd import make_jvp, make_vjp
from paragami import function_patterns as fp
from paragami import optimization_lib as ol
from paragami import autograd_supplement_lib as al
from .core import case, need, raises, eqv, Fail
from .model import *


def g_small(rng):
    while True:
        s = g_any(rng)
        if s.length(False) <= 30:
            return s


def free_arg(frees, rng):
    """the flags given singly when they agree, else per pattern"""
    if len(set(frees)) == 1 and rng.integers(0, 2):
        return frees[0]
    r = rng.integers(0, 3)
    return list(frees) if r == 0 else np.array(frees) if r == 1 else tuple(frees)


def same_any(a, b, tol=0.0):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return type(a) is type(b) and len(a) == len(b) and all(same_any(x, y, tol) for x, y in zip(a, b))
    if a is b:
        return True
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    return same(a, b, tol)


class Rec:
    """records its arguments and returns a fixed value"""
    __name__ = 'recorder'

    def __init__(self, ret):
        self.ret = ret
        self.calls = []

    def __call__(self, *a, **k):
        self.calls.append((a, k))
        return self.ret


def wrap_in(flat, fun, pats, free, argnums, rng):
    kw = {} if argnums is None else {'argnums': argnums}
    if rng.integers(0, 2):
        return fp.TransformFunctionInput(original_fun=fun, patterns=pats, free=free, original_is_flat=flat, **kw)
    c = fp.FoldFunctionInput if flat else fp.FlattenFunctionInput
    return c(original_fun=fun, patterns=pats, free=free, **kw)


def wrap_out(flat, fun, pats, free, retnums, rng):
    kw = {} if retnums is None else {'retnums': retnums}
    if rng.integers(0, 2):
        return fp.TransformFunctionOutput(original_fun=fun, patterns=pats, free=free, original_is_flat=flat, **kw)
    c = fp.FoldFunctionOutput if flat else fp.FlattenFunctionOutput
    return c(original_fun=fun, patterns=pats, free=free, **kw)


def as_nums(pos, rng):
    r = rng.integers(0, 3)
    if len(pos) == 1 and r == 0:
        return int(pos[0])
    return [int(x) for x in pos] if r < 2 else np.array(pos)


def conv(p, s, v, free, flat):
    """(argument for the wrapped function, argument the original must see): original flat means that the
    wrapped function takes folded values"""
    x = p.flatten(v, free=free, validate_value=False)
    return (v, x) if flat else (x, p.fold(x, free=free))


def valid_interior(s, rng):
    for _ in range(20):
        v = s.interior(rng)
        if s.is_valid(v, None):
            return v
    return None


# ----------------------------------------------------------------- C14
@case('C14', 160)
def input_wrapper(rng):
    m = int(rng.integers(1, 5))
    total = m + int(rng.integers(0, 4))
    pos = [int(x) for x in rng.permutation(total)[:m]]
    default = rng.integers(0, 5) == 0
    if default:
        pos = list(range(m))
    flat = bool(rng.integers(0, 2))
    specs, pats, vals = [], [], []
    while len(specs) < m:
        s = g_small(rng)
        v = valid_interior(s, rng)
        if v is not None:
            specs.append(s)
            pats.append(s.build())
            vals.append(v)
    frees = [bool(rng.integers(0, 2)) for _ in range(m)]
    if rng.integers(0, 3) == 0:
        frees = [frees[0]] * m
    args, want = [None] * total, [None] * total
    for i in range(total):
        args[i] = want[i] = ['other%d' % i, i, np.arange(i), None, [i]][rng.integers(0, 5)]
    for s, p, v, f, k in zip(specs, pats, vals, frees, pos):
        args[k], want[k] = conv(p, s, v, f, flat)
    ret = [np.ones(3), 2.5, ('a', 1), None, 'x'][rng.integers(0, 5)]
    fun = Rec(ret)
    ps = pats[0] if m == 1 and rng.integers(0, 2) else pats
    w = wrap_in(flat, fun, ps, free_arg(frees, rng), None if default else as_nums(pos, rng), rng)
    kw = {k: rng.normal() for k in ['k1', 'free', 'x'][:rng.integers(0, 4)]}
    for _ in range(2):
        keep = [copyv(a) if isinstance(a, (dict, np.ndarray)) else a for a in args]
        r = w(*args, **kw)
        need(r is ret, 'returns what the original returns', got=r, want=ret)
        a, k = fun.calls[-1]
        need(k == kw, 'keyword arguments pass unchanged', got=k, want=kw)
        need(len(a) == total, 'as many positional arguments', got=len(a), want=total)
        for i in range(total):
            if i in pos:
                need(same_any(a[i], want[i], 1e-9), 'argument %d is converted with its own pattern' % i, got=a[i],
                     want=want[i], pos=pos, frees=frees, flat=flat, default=default)
            else:
                need(a[i] is args[i], 'argument %d passes unchanged' % i, got=a[i], want=args[i], pos=pos)
        for x, y in zip(args, keep):
            need(x is y or same_any(x, y), 'arguments are not modified')
    need(len(fun.calls) == 2, 'the original is called once per call')


@case('C14', 60)
def input_wrapper_refusals(rng):
    m = int(rng.integers(2, 5))
    pats = [pg.NumericVectorPattern(length=2) for _ in range(m)]
    for cls, kw in ((fp.TransformFunctionInput, {'original_is_flat': True}), (fp.FoldFunctionInput, {}),
                    (fp.FlattenFunctionInput, {})):
        def mk(p, f, a):
            return lambda: cls(original_fun=lambda *x: x, patterns=p, free=f, argnums=a, **kw)
        raises(ValueError, mk(pats, True, list(range(m - 1))), 'too few positions')
        raises(ValueError, mk(pats, True, list(range(m + 1))), 'too many positions')
        raises(ValueError, mk(pats, True, [0] * m), 'repeated positions')
        rep = list(range(m))
        rep[-1] = rep[int(rng.integers(0, m - 1))]
        raises(ValueError, mk(pats, True, [int(x) for x in rng.permutation(rep)]), 'repeated positions')
        raises(ValueError, mk(pats, [True] * (m + 1), None), 'too many flags')
        if m > 2:
            raises(ValueError, mk(pats, [True] * (m - 1), None), 'too few flags')
        raises(ValueError, mk(pats[0], [True, False], 0), 'too many flags for one pattern')
        raises(ValueError, mk(pats, True, [list(range(m))]), 'positions that are not a vector')
        raises(ValueError, mk([pats], True, None), 'patterns that are not a vector')


@case('C14', 60)
def input_wrapper_permutations(rng):
    """every assignment of three patterns to positions"""
    ps = [pg.NumericVectorPattern(length=2, lb=0.0), pg.PSDSymmetricMatrixPattern(size=2),
          pg.SimplexArrayPattern(simplex_size=3, array_shape=(1,))]
    vs = [np.array([1.0, 3.0]), np.array([[2.0, 0.5], [0.5, 1.0]]), np.array([[0.2, 0.3, 0.5]])]
    total = int(rng.integers(3, 6))
    pos = [int(x) for x in rng.permutation(total)[:3]]
    fr = [bool(b) for b in rng.integers(0, 2, 3)]
    for flat in (True, False):
        fun = Rec(0)
        w = wrap_in(flat, fun, ps, fr, pos, rng)
        args, want = ['u%d' % i for i in range(total)], ['u%d' % i for i in range(total)]
        for p, v, f, k in zip(ps, vs, fr, pos):
            args[k], want[k] = conv(p, None, v, f, flat)
        w(*args)
        for i, (a, b) in enumerate(zip(fun.calls[0][0], want)):
            need(same_any(a, b, 1e-9), 'argument %d' % i, got=a, want=b, pos=pos, free=fr)
        need(len(fun.calls[0][0]) == total, 'number of arguments')


# ----------------------------------------------------------------- C15
@case('C15', 160)
def output_wrapper(rng):
    m = int(rng.integers(1, 5))
    total = m + int(rng.integers(0, 4))
    pos = [int(x) for x in rng.permutation(total)[:m]]
    default = rng.integers(0, 5) == 0
    if default:
        pos = list(range(m))
    flat = bool(rng.integers(0, 2))
    pats, frees, rets, want = [], [], [None] * total, [None] * total
    for i in range(total):
        rets[i] = want[i] = ['other%d' % i, i, np.arange(i), None, [i]][rng.integers(0, 5)]
    for k in pos:
        v = None
        while v is None:
            s = g_small(rng)
            v = valid_interior(s, rng)
        p = s.build()
        f = bool(rng.integers(0, 2))
        x = p.flatten(v, free=f)
        rets[k], want[k] = (x, p.fold(x, free=f)) if flat else (v, x)
        pats.append(p)
        frees.append(f)
    fun = Rec(tuple(rets))
    ps = pats[0] if m == 1 and rng.integers(0, 2) else pats
    w = wrap_out(flat, fun, ps, free_arg(frees, rng), None if default else as_nums(pos, rng), rng)
    args = ('a', np.arange(3), 3)[:rng.integers(0, 4)]
    kw = {k: rng.normal() for k in ['k1', 'free'][:rng.integers(0, 3)]}
    r = w(*args, **kw)
    a, k = fun.calls[-1]
    need(len(fun.calls) == 1 and k == kw and len(a) == len(args) and all(x is y for x, y in zip(a, args)),
         'arguments pass unchanged', got=(a, k))
    need(isinstance(r, tuple) and len(r) == total, 'as many return values', got=r)
    for i in range(total):
        if i in pos:
            need(same_any(r[i], want[i], 1e-9), 'return value %d is converted with its own pattern' % i, got=r[i],
                 want=want[i], pos=pos, frees=frees, flat=flat)
        else:
            need(r[i] is rets[i], 'return value %d is unchanged' % i, got=r[i], want=rets[i], pos=pos)


@case('C15', 80)
def output_wrapper_single(rng):
    v = None
    while v is None:
        s = g_small(rng)
        v = valid_interior(s, rng)
    p = s.build()
    f = bool(rng.integers(0, 2))
    x = p.flatten(v, free=f)
    for flat in (True, False):
        ret, want = (x, p.fold(x, free=f)) if flat else (v, x)
        for nums in (None, 0, [0]):
            w = wrap_out(flat, Rec(ret), p, f, nums, rng)
            need(same_any(w(), want, 1e-9), 'the single value is converted', got=w(), want=want, retnums=nums)
        if flat:
            w = wrap_out(flat, Rec(list(ret)), p, f, [None, 0][rng.integers(0, 2)], rng)
            need(same_any(w(), want, 1e-9), 'a list is a single value', got=w(), want=want)
        w = wrap_out(flat, Rec((ret,)), [p], f, [0], rng)
        r = w()
        need(isinstance(r, tuple) and len(r) == 1 and same_any(r[0], want, 1e-9), 'a tuple of one value', got=r)
        for nums in (1, [1], 2):
            w1 = wrap_out(flat, Rec(ret), p, f, nums, rng)
            raises(ValueError, w1, 'a position that is not returned (single value)', retnums=nums)
        k = int(rng.integers(0, 3))
        w2 = wrap_out(flat, Rec((ret,) * (k + 1)), p, f, k + 1 + int(rng.integers(0, 3)), rng)
        raises(ValueError, w2, 'a position that is not returned (tuple)')
        w3 = wrap_out(flat, Rec((ret,) * 2), [p, p], f, [0, 2], rng)
        raises(ValueError, w3, 'a position that is not returned (tuple)')
        import functools
        w5 = wrap_out(flat, functools.partial(lambda: (ret,) * 2), p, f, 2, rng)
        raises(ValueError, w5, 'a position that is not returned (callable without a name)')
        w6 = wrap_out(flat, functools.partial(lambda: ret), p, f, 1, rng)
        raises(ValueError, w6, 'a position that is not returned (callable without a name)')
        w4 = wrap_out(flat, Rec(ret), [p, p], f, [0, 1], rng)
        raises(ValueError, w4, 'two positions of a single value')


@case('C15', 40)
def output_wrapper_refusals(rng):
    m = int(rng.integers(2, 5))
    pats = [pg.NumericVectorPattern(length=2) for _ in range(m)]
    for cls, kw in ((fp.TransformFunctionOutput, {'original_is_flat': True}), (fp.FoldFunctionOutput, {}),
                    (fp.FlattenFunctionOutput, {})):
        def mk(p, f, a):
            return lambda: cls(original_fun=lambda *x: x, patterns=p, free=f, retnums=a, **kw)
        raises(ValueError, mk(pats, True, list(range(m - 1))), 'too few positions')
        raises(ValueError, mk(pats, True, list(range(m + 1))), 'too many positions')
        rep = list(range(m))
        rep[-1] = rep[int(rng.integers(0, m - 1))]
        raises(ValueError, mk(pats, True, [int(x) for x in rng.permutation(rep)]), 'repeated positions')
        raises(ValueError, mk(pats, [True] * (m + 1), None), 'too many flags')
        if m > 2:
            raises(ValueError, mk(pats, [True] * (m - 1), None), 'too few flags')
        raises(ValueError, mk(pats, True, [list(range(m))]), 'positions that are not a vector')
        raises(ValueError, mk([pats], True, None), 'patterns that are not a vector')


@case('C15', 80)
def combined_wrappers(rng):
    def pick():
        v = None
        while v is None:
            s = g_small(rng)
            v = valid_interior(s, rng)
        return s.build(), v
    ni, no = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    ti, to = ni + int(rng.integers(0, 2)), no + int(rng.integers(0, 2))
    ins, outs = [pick() for _ in range(ni)], [pick() for _ in range(no)]
    ipos = [int(x) for x in rng.permutation(ti)[:ni]]
    opos = [int(x) for x in rng.permutation(to)[:no]]
    fi, fo = [bool(b) for b in rng.integers(0, 2, ni)], [bool(b) for b in rng.integers(0, 2, no)]
    for flat, cls in ((True, pg.FoldFunctionInputAndOutput), (False, pg.FlattenFunctionInputAndOutput)):
        args, seen = ['i%d' % i for i in range(ti)], ['i%d' % i for i in range(ti)]
        rets, want = ['o%d' % i for i in range(to)], ['o%d' % i for i in range(to)]
        for (p, v), f, k in zip(ins, fi, ipos):
            x = p.flatten(v, free=f)
            args[k], seen[k] = (v, x) if flat else (x, p.fold(x, free=f))
        for (p, v), f, k in zip(outs, fo, opos):
            x = p.flatten(v, free=f)
            rets[k], want[k] = (x, p.fold(x, free=f)) if flat else (v, x)
        fun = Rec(tuple(rets))
        w = cls(fun, [p for p, _ in ins], fi, ipos, [p for p, _ in outs], fo, opos)
        r = w(*args, extra=3)
        a, k = fun.calls[0]
        need(k == {'extra': 3} and len(fun.calls) == 1, 'keyword arguments')
        need(all(same_any(x, y, 1e-9) for x, y in zip(a, seen)) and len(a) == ti, 'inputs are converted', got=a,
             want=seen)
        need(len(r) == to and all(same_any(x, y, 1e-9) for x, y in zip(r, want)), 'outputs are converted', got=r,
             want=want, opos=opos)
        single = cls(Rec(rets[opos[0]]), [p for p, _ in ins], fi, ipos, outs[0][0], fo[0])
        need(same_any(single(*args), want[opos[0]], 1e-9), 'a single output is converted')


# ----------------------------------------------------------------- C16
def cond_mat(rng, n):
    while True:
        a = rng.normal(size=(n, n))
        if np.linalg.cond(a) < 100:
            return a


def quad(rng, n):
    b = rng.normal(size=n)
    m = rng.normal(size=(n, n))
    return lambda x: anp.sum(anp.sin(b * x)) + anp.dot(x, anp.dot(m, x))


@case('C16', 120)
def preconditioned(rng):
    n = int(rng.integers(1, 6))
    f = quad(rng, n)
    pf = ol.PreconditionedFunction(f)
    A = np.eye(n)
    Ai = np.eye(n)
    for step in range(int(rng.integers(1, 6))):
        x = rng.normal(size=n)
        close(pf.unprecondition(x), A @ x, 'un-preconditioning multiplies by A', step=step)
        close(pf.precondition(x), Ai @ x, 'preconditioning multiplies by the inverse', step=step)
        close(pf(x), f(A @ x), 'the preconditioned function is the composition', step=step)
        close(pf.precondition(pf.unprecondition(x)), Ai @ (A @ x), 'the two operators')
        if n > 1 or True:
            close(pf.get_preconditioner(n), A, 'the reported matrix is A')
            close(pf.get_preconditioner_inv(n), Ai, 'the reported inverse')
        g = autograd.grad(pf)(x)
        close(g, A.T @ autograd.grad(f)(A @ x), 'gradient of the preconditioned function')
        err = np.linalg.norm(x - A @ (Ai @ x))
        for tol in (None, 1e-8, 1e-3, 10.0):
            kw = {} if tol is None else {'tol': tol}
            t = 1e-8 if tol is None else tol
            if abs(err - t) < 0.05 * t + 1e-12:
                continue
            if err > t:
                raises(ValueError, lambda: pf.check_preconditioner(x, **kw), 'the check notices a wrong inverse',
                       err=err, tol=t)
            else:
                pf.check_preconditioner(x, **kw)
        r = rng.integers(0, 8)
        if r == 0:
            pf.set_identitity_preconditioner()
            A = Ai = np.eye(n)
            continue
        A = cond_mat(rng, n)
        Ai = np.linalg.inv(A)
        if r == 1:
            pf.set_preconditioner_matrix(A)
        elif r == 2:
            pf.set_preconditioner_matrix(A, Ai)
        elif r == 3:
            pf.set_preconditioner_matrix(sps.csc_matrix(A)) if n > 1 else pf.set_preconditioner_matrix(A)
        elif r == 4:
            pf.set_preconditioner_matrix(sps.csc_matrix(A), sps.csr_matrix(Ai))
        elif r == 5:
            Ai = cond_mat(rng, n)          # the given inverse is used as it is
            if rng.integers(0, 2):
                pf.set_preconditioner_matrix(A, a_inv=Ai)
            else:
                pf.set_preconditioner_matrix(sps.csc_matrix(A), a_inv=sps.csc_matrix(Ai))
        elif r == 6:
            pf.set_preconditioner(A, Ai) if rng.integers(0, 2) else pf.set_preconditioner(A)
        else:
            B, Bi = A.copy(), Ai.copy()
            pf.set_preconditioner_functions(lambda v, B=B: anp.dot(B, v), lambda v, Bi=Bi: anp.dot(Bi, v))
    x = rng.normal(size=n)
    close(pf(x), f(A @ x), 'the most recent preconditioner')


def close(a, b, what, tol=1e-6, **k):
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, what + ': shape', got=a.shape, want=b.shape, **k)
    s = max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
    need(np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= tol * s), what, got=a, want=b, **k)


# ----------------------------------------------------------------- C17
def sym_with(rng, ev):
    n = len(ev)
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    m = q @ np.diag(ev) @ q.T
    return 0.5 * (m + m.T), q


@case('C17', 120)
def hessian_preconditioner(rng):
    n = int(rng.integers(1, 6))
    ev = rng.uniform(0.3, 5.0, n) * rng.choice([1.0, 1.0, 30.0], n)
    if rng.integers(0, 3) == 0 and n > 1:
        ev[1] = ev[0]
    lo = hi = None
    if rng.integers(0, 2):
        lo = float(rng.uniform(0.1, 3.0))
        ev = ev * rng.choice([-1, 1], n)
    if rng.integers(0, 2):
        hi = float((lo or 0.2) + rng.uniform(0.0, 5.0))
    H, q = sym_with(rng, ev)
    keep = H.copy()
    c = ev.copy()
    if lo is not None:
        c = np.maximum(c, lo)
    if hi is not None:
        c = np.minimum(c, hi)
    C = q @ np.diag(c) @ q.T
    R = q @ np.diag(c ** -0.5) @ q.T
    f = lambda x: 0.5 * anp.dot(x, anp.dot(H, x)) + anp.sum(x)
    pf = ol.PreconditionedFunction(f)
    kw = {}
    if lo is not None:
        kw['ev_min'] = lo
    if hi is not None:
        kw['ev_max'] = hi
    x0 = rng.normal(size=n)
    if rng.integers(0, 3) == 0:
        pf.set_preconditioner_with_hessian(x=x0, **kw)
    else:
        pf.set_preconditioner_with_hessian(hessian=H, **kw)
    eqv(H, keep, 'the Hessian is not modified')
    P = pf.get_preconditioner(n)
    close(P, R, 'the preconditioner is the inverse root of the clipped Hessian', lo=lo, hi=hi, ev=ev)
    close(P, P.T, 'the preconditioner is symmetric')
    close(P @ C @ P, np.eye(n), 'sandwiching the clipped Hessian gives the identity')
    close(pf.get_preconditioner_inv(n) @ P, np.eye(n), 'the inverse operator undoes it')
    x = rng.normal(size=n)
    close(pf.precondition(pf.unprecondition(x)), x, 'the inverse operator undoes it')
    close(pf(x), f(R @ x), 'the preconditioned function')
    pf.check_preconditioner(x)


@case('C17', 40)
def hessian_at_the_point(rng):
    n = int(rng.integers(1, 4))
    f = lambda x: anp.sum(anp.exp(x)) + anp.sum(x ** 4) + anp.prod(x)
    pf = ol.PreconditionedFunction(f)
    x = rng.uniform(0.5, 1.5, n)
    H = np.diag(np.exp(x) + 12 * x ** 2)
    for i in range(n):
        for j in range(n):
            if i != j:
                H[i, j] = np.prod(x) / x[i] / x[j]
    pf.set_preconditioner_with_hessian(x=x, ev_min=1e-3)
    P = pf.get_preconditioner(n)
    w, v = np.linalg.eigh(H)
    w = np.maximum(w, 1e-3)
    close(P @ (v @ np.diag(w) @ v.T) @ P, np.eye(n), 'the Hessian is evaluated at the given point')
    raises(ValueError, lambda: pf.set_preconditioner_with_hessian(x=x, hessian=H), 'a point and a Hessian')
    raises(ValueError, lambda: pf.set_preconditioner_with_hessian(), 'neither a point nor a Hessian')
    raises(ValueError, lambda: pf.set_preconditioner_with_hessian(ev_min=1.0), 'neither a point nor a Hessian')
    close(pf.get_preconditioner(n), P, 'a refused call changes nothing')


@case('C17', 300)
def clipping(rng):
    n = int(rng.integers(1, 8))
    dt = [np.float64, np.int64, np.int32, np.float32][rng.integers(0, 4)]
    ev = (rng.normal(size=n) * 4).astype(dt)
    lo = None if rng.integers(0, 3) == 0 else float(np.round(rng.normal() * 2, 2))
    hi = None if rng.integers(0, 3) == 0 else float(np.round(rng.normal() * 2 + 3, 2))
    special = [0.0, 0, 1, -1, float(ev[-1]), np.float64(0.0)]
    if rng.integers(0, 3) == 0:
        lo = special[rng.integers(0, 6)]
    if rng.integers(0, 3) == 0:
        hi = special[rng.integers(0, 6)]
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    if lo is not None and n > 1:
        ev[0] = dt(lo)
    keep = ev.copy()
    want = keep.astype(float)
    if lo is not None:
        want = np.where(want < lo, lo, want)
    if hi is not None:
        want = np.where(want > hi, hi, want)
    arg = ev
    kw = {}
    if lo is not None or rng.integers(0, 2):
        kw['ev_min'] = lo
    if hi is not None or rng.integers(0, 2):
        kw['ev_max'] = hi
    got = ol.truncate_eigenvalues(arg, **kw)
    eqv(ev, keep, 'clipping does not modify its input')
    close(got, want, 'clipping', 1e-6 if dt is np.float32 else 0.0, lo=lo, hi=hi, ev=ev)
    if isinstance(arg, np.ndarray):
        need(not np.shares_memory(got, arg), 'clipping returns a new array')
    for bad in (1j, 2.0 + 1j):
        raises(ValueError, lambda: ol.truncate_eigenvalues(ev, ev_min=bad), 'a complex limit')
        raises(ValueError, lambda: ol.truncate_eigenvalues(ev, ev_max=bad), 'a complex limit')


@case('C17', 60)
def eigenspace(rng):
    n, k = int(rng.integers(1, 6)), 0
    k = int(rng.integers(1, n + 1))
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    V, ev = q[:, :k], rng.uniform(0.5, 4, k)
    g = [np.sqrt, lambda x: 1 / x, lambda x: x ** 2][rng.integers(0, 3)]
    op = ol.transform_eigenspace(V, ev, g)
    x = rng.normal(size=n)
    keep = x.copy()
    want = x - V @ (V.T @ x) + V @ (g(ev) * (V.T @ x))
    close(op(x), want, 'identity outside the eigenspace, transformed inside', n=n, k=k)
    eqv(x, keep, 'the argument is not modified')
    raises(ValueError, lambda: ol.transform_eigenspace(V[:, 0], ev, g), 'eigenvectors must be a matrix')
    raises(ValueError, lambda: ol.transform_eigenspace(V, np.diag(ev), g), 'eigenvalues must be a vector')
    raises(ValueError, lambda: ol.transform_eigenspace(V, np.append(ev, 1.0), g), 'numbers must match')


# ----------------------------------------------------------------- C18
@case('C18', 160)
def objective(rng):
    n = int(rng.integers(1, 4))
    f = quad(rng, n)
    calls = []

    def fun(x):
        if isinstance(x, np.ndarray):
            calls.append(x.copy())
        return f(x)
    kw = {}
    pe, le_ = 1, 0
    if rng.integers(0, 2):
        pe = kw['print_every'] = int(rng.integers(0, 4))
    if rng.integers(0, 2):
        le_ = kw['log_every'] = int(rng.integers(0, 4))
    obj = ol.OptimizationObjective(fun, **kw)
    count, log = 0, []
    x = rng.normal(size=n)
    for step in range(int(rng.integers(1, 18))):
        r = rng.integers(0, 14)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if r < 8:
                if rng.integers(0, 2):
                    x = rng.normal(size=n)
                else:
                    x[rng.integers(0, n)] += 0.5        # the caller changes the argument in place
                want = f(x)
                keep = x.copy()
                nc = len(calls)
                got = obj.f(x)
                need(got == want, 'the value of the original function', got=got, want=want)
                need(len(calls) == nc + 1, 'the original is evaluated once', got=len(calls) - nc)
                eqv(x, keep, 'the argument is not modified')
                printed = pe > 0 and count % pe == 0
                if le_ > 0 and count % le_ == 0:
                    log.append((count, keep, want))
                s = out.getvalue()
                need(bool(s) == printed, 'printed exactly at the interval', got=s, count=count, every=pe)
                if printed:
                    need(s.count('\n') == 1 and str(count) in s and '%0.8f' % want in s, 'what is printed', got=s,
                         count=count, value=want)
                count += 1
            elif r == 8:
                pe = int(rng.integers(-1, 4))
                obj.set_print_every(pe)
            elif r == 9:
                le_ = int(rng.integers(-1, 4))
                obj.set_log_every(le_)
            elif r == 10:
                obj.reset_iteration_count()
                count = 0
            elif r == 11:
                obj.reset_log()
                log = []
            elif r == 12:
                obj.reset()
                count, log = 0, []
            else:
                close(obj.grad(x), autograd.grad(f)(x), 'the gradient')
                close(obj.hessian(x), autograd.hessian(f)(x), 'the Hessian')
                v = rng.normal(size=n)
                close(obj.hessian_vector_product(x, v), autograd.hessian(f)(x) @ v, 'the Hessian-vector product')
            if r >= 8:
                need(out.getvalue() == '', 'nothing else is printed', got=out.getvalue())
        need(obj.num_iterations() == count, 'the evaluation count', got=obj.num_iterations(), want=count)
        got = obj.optimization_log
        need(len(got) == len(log), 'entries since the log was cleared', got=got, want=log)
        for a, b in zip(got, log):
            need(a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2] == b[2], 'a log entry', got=a, want=b)


@case('C18', 20)
def objective_overload(rng):
    seen, logged = [], []

    class O(ol.OptimizationObjective):
        def print_value(self, k, x, v):
            seen.append((k, np.array(x), v))

        def log_value(self, k, x, v):
            logged.append((k, np.array(x), v))
    f = lambda x: anp.sum(x ** 2)
    pe, le_ = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    o = O(f, print_every=pe, log_every=le_)
    xs = [rng.normal(size=2) for _ in range(9)]
    for x in xs:
        o.f(x)
    for got, e in ((seen, pe), (logged, le_)):
        need([g[0] for g in got] == [i for i in range(9) if i % e == 0], 'overloaded hooks are called at the interval')
        need(all(np.array_equal(g[1], xs[g[0]]) and g[2] == f(xs[g[0]]) for g in got), 'with the argument and value')
    a, b = ol.OptimizationObjective(f, print_every=0, log_every=1), ol.OptimizationObjective(f, print_every=0,
                                                                                           log_every=1)
    a.f(xs[0])
    need(b.num_iterations() == 0 and b.optimization_log == [] and len(a.optimization_log) == 1,
         'two objectives are independent')


@case('C18', 15)
def objective_of_containers(rng):
    n = int(rng.integers(1, 4))
    f = lambda d: float(np.sum(d['a']) + np.prod(d['b']['c']))
    o = ol.OptimizationObjective(f, print_every=0, log_every=1)
    d = {'a': rng.normal(size=n), 'b': {'c': rng.normal(size=2)}}
    want = []
    for i in range(4):
        need(o.f(d) == f(d), 'the value of the original function')
        want.append((i, d['a'].copy(), d['b']['c'].copy(), f(d)))
        d['a'] += 1.0                                      # the caller changes the argument in place
        d['b']['c'][0] *= 2.0
        if i == 2:
            d['b']['c'] = np.zeros(2)
    need(len(o.optimization_log) == 4, 'an entry for each evaluation')
    for g, w in zip(o.optimization_log, want):
        need(g[0] == w[0] and np.array_equal(g[1]['a'], w[1]) and np.array_equal(g[1]['b']['c'], w[2]) and g[2] == w[3],
             'log entries keep the argument as it was evaluated', got=g, want=w)


# ----------------------------------------------------------------- derivatives
def jvp_num(f, x, d, h=1e-5):
    def g(t):
        return np.asarray(f(x + t * d), dtype=float)
    d1 = (g(h) - g(-h)) / (2 * h)
    d2 = (g(h / 2) - g(-h / 2)) / h
    return (4 * d2 - d1) / 3


def check_derivs(f, x, rng, what, tol=1e-6, order2=True, reverse=True, **ctx):
    """forward rule = numerical derivative; reverse rule = its adjoint; and once more differentiated"""
    x = np.asarray(x, dtype=float)
    d = rng.normal(size=x.shape)
    want = jvp_num(f, x, d)
    ans, got = make_jvp(f)(x)(d)
    close(got, want, what + ': forward rule', tol, **ctx)
    if reverse:
        vjp, ans2 = make_vjp(f)(x)
        w = rng.normal(size=np.shape(ans2))
        a = vjp(w)
        need(np.shape(a) == x.shape, what + ': shape of the reverse rule', got=np.shape(a), want=x.shape, **ctx)
        lhs, rhs = float(np.sum(np.asarray(a) * d)), float(np.sum(w * want))
        need(abs(lhs - rhs) <= tol * 10 * max(1, abs(rhs), np.abs(w).max() * np.abs(want).max() if want.size else 1),
             what + ': the reverse rule is the adjoint', got=lhs, want=rhs, **ctx)
    if order2:
        g = lambda y: make_jvp(f)(y)(d)[1]
        w2 = jvp_num(g, x, d, 1e-4)
        close(make_jvp(g)(x)(d)[1], w2, what + ': second forward derivative', tol * 100, **ctx)
        if reverse:
            w = rng.normal(size=np.shape(ans))
            h = lambda y: make_vjp(f)(y)[0](w)
            e = rng.normal(size=x.shape)
            w3 = jvp_num(h, x, e, 1e-4)
            close(make_jvp(h)(x)(e)[1], w3, what + ': forward over reverse', tol * 100, **ctx)
            v3 = make_vjp(h)(x)[0](d)
            need(abs(float(np.sum(v3 * e)) - float(np.sum(w3 * d))) <= tol * 1000 * max(1, np.abs(w3).max() if np.size(w3) else 1),
                 what + ': reverse over reverse', got=float(np.sum(v3 * e)), want=float(np.sum(w3 * d)), **ctx)


# ----------------------------------------------------------------- C19
@case('C19', 120)
def grouped_sums(rng):
    N, G = int(rng.integers(1, 8)), int(rng.integers(1, 6))
    tail = g_shape(rng, 0, 3, 4)
    x = rng.normal(size=(N,) + tail)
    groups = rng.integers(0, G, N)
    if rng.integers(0, 2):
        ng = int(groups.max() + 1 + rng.integers(0, 3))
        kw = {'num_groups': ng}
    else:
        ng = int(groups.max() + 1)
        kw = {} if rng.integers(0, 2) else {'num_groups': None}
    kx, kg = x.copy(), groups.copy()
    garg = groups if rng.integers(0, 2) else ([int(g) for g in groups] if rng.integers(0, 2) else groups.astype(float))
    got = al.grouped_sum(x, garg, **kw)
    want = np.zeros((ng,) + tail)
    for i in range(N):
        want[groups[i]] = want[groups[i]] + kx[i]
    close(got, want, 'sums by group', 1e-12, groups=groups, num_groups=ng)
    eqv(x, kx, 'the argument is not modified')
    eqv(groups, kg, 'the groups are not modified')
    xi = rng.integers(-5, 6, (N,) + tail)
    close(al.grouped_sum(xi, garg, **kw), np.array([xi[groups == g].sum(axis=0) for g in range(ng)]).reshape((ng,) + tail),
          'sums of integers')
    check_derivs(lambda y: al.grouped_sum(y, garg, **kw), x, rng, 'grouped_sum', groups=garg, kw=kw)
    close(al.grouped_sum(np.zeros((0,) + tail), np.zeros(0, int), num_groups=G), np.zeros((G,) + tail),
          'no observations')
    neg = groups.copy()
    neg[rng.integers(0, N)] = -1
    raises(ValueError, lambda: al.grouped_sum(x, neg, **kw), 'a negative group')
    raises(ValueError, lambda: al.grouped_sum(x, np.append(groups, 0), **kw), 'mismatched lengths')
    raises(ValueError, lambda: al.grouped_sum(x[:-1] if N > 1 else np.zeros((0,) + tail), groups, **kw),
           'mismatched lengths')
    raises(ValueError, lambda: al.grouped_sum(x, groups, num_groups=int(groups.max())), 'a group out of range')
    raises(ValueError, lambda: al.grouped_sum(x, groups[:, None], **kw), 'groups that are not a vector')


@case('C19', 120)
def replacing(rng):
    n = int(rng.integers(1, 8))
    k = int(rng.integers(1, n + 1))
    inds = rng.permutation(n)[:k]
    tail = g_shape(rng, 0, 2, 3)
    x, s = rng.normal(size=(n,) + tail), rng.normal(size=(k,) + tail)
    if rng.integers(0, 4) == 0:
        x = rng.integers(-4, 5, (n,) + tail)
    kx, ks, ki = x.copy(), s.copy(), inds.copy()
    iarg = inds if rng.integers(0, 2) else [int(i) for i in inds]
    got = al.replace(s, x, iarg)
    want = np.array(x, dtype=float)
    for j, i in enumerate(inds):
        want[i] = s[j]
    eqv(got, want, 'replacement', inds=inds, s=s, x=x)
    eqv(x, kx, 'x is not modified')
    eqv(s, ks, 'x_sub is not modified')
    eqv(inds, ki, 'inds is not modified')
    need(not np.shares_memory(got, x), 'a new array')
    xf = x.astype(float)
    check_derivs(lambda y: al.replace(y, xf, inds), s, rng, 'replace in the replacement', inds=inds)
    check_derivs(lambda y: al.replace(s, y, inds), xf, rng, 'replace in the original', inds=inds)
    both = lambda z: al.replace(z[:k] ** 2, z[k:] * anp.sum(z[:k]), inds)
    if not tail:
        check_derivs(both, np.concatenate([s, xf]), rng, 'replace in both', tol=1e-5, inds=inds)


# ----------------------------------------------------------------- C20
@case('C20', 100)
def sparse_products(rng):
    m, n = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    Z = rng.normal(size=(m, n)) * (rng.uniform(size=(m, n)) < 0.6)
    fmt = [sps.csr_matrix, sps.csc_matrix, sps.coo_matrix, np.array][rng.integers(0, 4)]
    z = fmt(Z)
    mult, multt = al.get_sparse_product(z)
    Z2 = rng.normal(size=(m, n))
    if rng.integers(0, 2):
        # the same numbers in other places
        Z2 = Z[rng.permutation(m)][:, rng.permutation(n)]
        if rng.integers(0, 2) and m == n:
            Z2 = Z.T.copy()
    mult2, multt2 = al.get_sparse_product(sps.csr_matrix(Z2))
    k = int(rng.integers(1, 4))
    for tail in ((), (k,)):
        b, c = rng.normal(size=(n,) + tail), rng.normal(size=(m,) + tail)
        kb = b.copy()
        close(mult(b), Z @ b, 'multiplies by the matrix', 1e-10)
        close(multt(c), Z.T @ c, 'multiplies by the transpose', 1e-10)
        close(mult2(b), Z2 @ b, 'a second matrix is independent', 1e-10)
        close(multt2(c), Z2.T @ c, 'a second matrix is independent', 1e-10)
        eqv(b, kb, 'the argument is not modified')
        check_derivs(mult, b, rng, 'z_mult', tail=tail)
        check_derivs(multt, c, rng, 'zt_mult', tail=tail)
        check_derivs(lambda y: mult(anp.sin(y)) ** 2, b, rng, 'function of z_mult', tol=1e-5, tail=tail)
        check_derivs(lambda y: multt(mult(y ** 2)) ** 2, b, rng, 'function of both', tol=1e-5, tail=tail)
        check_derivs(mult2, b, rng, 'the second z_mult')
        check_derivs(multt2, c, rng, 'the second zt_mult')
    bad = rng.normal(size=(1, n, 2))
    raises(ValueError, lambda: mult(rng.normal(size=(n, 2, 2))), 'three-dimensional arguments')
    raises(ValueError, lambda: multt(rng.normal(size=(m, 2, 2))), 'three-dimensional arguments')
    raises(ValueError, lambda: al.get_sparse_product(rng.normal(size=n)), 'a vector is not a matrix')
    raises(ValueError, lambda: al.get_sparse_product(bad), 'a three-dimensional matrix')


@case('C20', 100)
def solvers(rng):
    n = int(rng.integers(1, 6))
    Z, Y = cond_mat(rng, n), cond_mat(rng, n)
    zs, zts = al.get_differentiable_solver(lambda b: np.linalg.solve(Z, b), lambda b: np.linalg.solve(Z.T, b))
    ys, yts = al.get_differentiable_solver(lambda b: np.linalg.solve(Y, b), lambda b: np.linalg.solve(Y.T, b))
    Zi, Yi = np.linalg.inv(Z), np.linalg.inv(Y)
    for tail in ((), (2,)):
        b = rng.normal(size=(n,) + tail)
        for f, M, nm in ((zs, Zi, 'z_solve'), (zts, Zi.T, 'zt_solve'), (ys, Yi, 'second z_solve'),
                         (yts, Yi.T, 'second zt_solve')):
            close(f(b), M @ b, nm, 1e-8)
            check_derivs(f, b, rng, nm, tol=1e-5, tail=tail)
        check_derivs(lambda y: zts(anp.sin(zs(y))), b, rng, 'function of both solvers', tol=1e-5)
    # the given solvers are applied: not inverted, not swapped
    log = []
    s1, s2 = al.get_differentiable_solver(lambda b: (log.append('z'), 2 * b)[1], lambda b: (log.append('t'), 3 * b)[1])
    close(s1(np.ones(2)), 2 * np.ones(2), 'the first solver is applied')
    close(s2(np.ones(2)), 3 * np.ones(2), 'the second solver is applied')
    need(log == ['z', 't'], 'each is applied once', got=log)


# ----------------------------------------------------------------- C21
def stack_mats(rng, lead, n):
    out = np.empty(lead + (n, n))
    for i in np.ndindex(*lead):
        out[i] = cond_mat(rng, n)
    return out


@case('C21', 80)
def linalg_rules(rng):
    n = int(rng.integers(1, 5))
    lead = [(), (), (2,), (3, 2)][rng.integers(0, 4)]
    a = stack_mats(rng, lead, n)
    check_derivs(lambda x: anp.linalg.inv(x), a, rng, 'inv', tol=1e-4, order2=not lead, reverse=not lead, lead=lead)
    k = int(rng.integers(1, 4))
    b = rng.normal(size=lead + (n, k))
    check_derivs(lambda x: anp.linalg.solve(x, b), a, rng, 'solve in the matrix', tol=1e-4, order2=not lead, reverse=False,
                 lead=lead)
    check_derivs(lambda x: anp.linalg.solve(a, x), b, rng, 'solve in the right-hand side', tol=1e-4, order2=not lead,
                 reverse=False, lead=lead)
    if not lead:
        v = rng.normal(size=n)
        check_derivs(lambda x: anp.linalg.solve(x, v), a, rng, 'solve in the matrix, vector', tol=1e-4, reverse=False)
        check_derivs(lambda x: anp.linalg.solve(a, x), v, rng, 'solve in the right-hand side, vector', tol=1e-4,
                     reverse=False)
        both = lambda z: anp.linalg.solve(z[:, :n], z[:, n:])
        check_derivs(both, np.concatenate([a, b], axis=1), rng, 'solve in both', tol=1e-4, reverse=False)
        bothv = lambda z: anp.linalg.solve(z[:, :n], z[:, n])
        check_derivs(bothv, np.concatenate([a, v[:, None]], axis=1), rng, 'solve in both, vector', tol=1e-4, reverse=False)
        check_derivs(lambda x: anp.linalg.slogdet(x)[1], a, rng, 'slogdet', tol=1e-4, reverse=False)
        d = rng.normal(size=a.shape)
        _, t = make_jvp(lambda x: anp.linalg.slogdet(x)[0] * 1.0)(a)(d)
        need(np.all(np.asarray(t) == 0), 'the sign has derivative zero', got=t)
        check_derivs(lambda x: anp.linalg.slogdet(x)[1] * anp.sum(anp.linalg.inv(x)), a, rng, 'slogdet and inv', tol=1e-4,
                     reverse=False)
    elif len(lead) == 1:
        # stacked vector right-hand sides (one vector per matrix)
        v = rng.normal(size=lead + (n,))
        if n != lead[0]:
            try:
                np.linalg.solve(a, v)
            except ValueError:
                return
        check_derivs(lambda x: anp.linalg.solve(x, v), a, rng, 'solve in the matrix, stacked vectors', tol=1e-4,
                     order2=False, reverse=False)
        check_derivs(lambda x: anp.linalg.solve(a, x), v, rng, 'solve in the right-hand side, stacked vectors', tol=1e-4,
                     order2=False, reverse=False)


@case('C21', 2)
def rgamma_at_poles(rng):
    # 1/gamma is entire: its derivative at -n is (-1)^n n!
    n = int(rng.integers(0, 5))
    ans, t = make_jvp(asp.rgamma)(-float(n))(1.0)
    want = (-1.0) ** n * np.prod(np.arange(1, n + 1), dtype=float)
    need(np.isfinite(t), 'the derivative of rgamma at a pole of gamma is not finite', at=-n, got=t, want=want)
    need(abs(t - want) < 1e-6, 'the derivative of rgamma at a pole of gamma', at=-n, got=t, want=want)


@case('C21', 40)
def solve_stacked_sides(rng):
    # right-hand sides stacked over one matrix, or over fewer matrices
    n, k = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    lead = [(), (2,), (1,), (3, 1)][rng.integers(0, 4)]
    more = [(3,), (2, 2), (1,)][rng.integers(0, 3)]
    a = stack_mats(rng, lead, n)
    b = rng.normal(size=more + lead + (n, k))
    d = rng.normal(size=a.shape)
    ans, t = make_jvp(lambda x: anp.linalg.solve(x, b))(a)(d)
    ai = np.linalg.inv(a)
    close(t, -(ai @ d @ ai @ b), 'solve in the matrix, stacked right-hand sides', 1e-6, mat=a, rhs=b)
    g = rng.normal(size=b.shape)
    ans, t = make_jvp(lambda x: anp.linalg.solve(a, x))(b)(g)
    close(t, ai @ g, 'solve in the right-hand side, stacked right-hand sides', 1e-6, mat=a, rhs=b)


@case('C21', 60)
def special_rules(rng):
    sh = g_shape(rng, 0, 2, 4)
    x = rng.uniform(0.3, 6.0, sh)
    neg = rng.integers(0, 3) == 0
    if neg:
        x = -(np.floor(rng.uniform(0, 4, sh)) + rng.uniform(0.2, 0.8, sh))
    fs = [('gamma', asp.gamma), ('psi', asp.psi), ('digamma', asp.digamma), ('rgamma', asp.rgamma),
          ('gammaln', asp.gammaln)]
    for nm, f in fs:
        check_derivs(f, x, rng, nm, tol=1e-5, order2=False, reverse=False, at=x)
        check_derivs(lambda y: f(2 * y + 0.11) * y, x, rng, nm, tol=1e-5, order2=False, reverse=False, at=x)
    xp = np.abs(x) + 0.2
    for k in range(0, 4):
        check_derivs(lambda y: asp.polygamma(k, y), xp, rng, 'polygamma %d' % k, tol=1e-5, order2=False, reverse=False, at=xp)
    for nm, f in fs:
        g = lambda y: make_jvp(f)(y)(np.ones(np.shape(y)))[1]
        if not neg and np.ndim(x):
            check_derivs(g, xp, rng, nm + ' twice', tol=1e-4, order2=False, reverse=False, at=xp)
    d = rng.normal(size=np.shape(x))
    # gammasgn is locally constant
    y, t = make_jvp(lambda z: asp.gammasgn(z) * z)(x)(d)
    close(t, osp_special.gammasgn(x) * d, 'gammasgn is locally constant', 1e-12)


# ----------------------------------------------------------------- C23
@case('C23', 60)
def sparse_sqrt(rng):
    from paragami import sparse_preconditioners_lib as spl
    n = int(rng.integers(2, 12))
    A = np.diag(rng.uniform(1.0, 3.0, n))
    for _ in range(int(rng.integers(0, 3 * n))):
        i, j = rng.integers(0, n, 2)
        w = rng.normal() * 0.7
        v = np.zeros(n)
        v[i] += 1
        v[j] += w
        A += np.outer(v, v)
    if rng.integers(0, 3) == 0:               # arrow matrix: a permutation is needed
        A = np.diag(np.full(n, float(n)))
        A[0, :] = A[:, 0] = 1.0
        A[0, 0] = 2.0 * n
    H = sps.csc_matrix(A) if rng.integers(0, 2) else sps.csc_matrix(sps.coo_matrix(A))
    S, Si = spl.get_sym_matrix_inv_sqrt_funcs(H)
    Sm = np.array([S(e) for e in np.eye(n)]).T
    Sim = np.array([Si(e) for e in np.eye(n)]).T
    close(Sm.T @ Sm, A, 'S^T S = H', 1e-8, H=A)
    close(Sm @ Sim, np.eye(n), 'the second undoes the first', 1e-8)
    close(Sim @ Sm, np.eye(n), 'the first undoes the second', 1e-8)
    close(Sim.T @ A @ Sim, np.eye(n), 'preconditioning turns H into the identity', 1e-8)
    x, y = rng.normal(size=n), rng.normal(size=n)
    close(S(2 * x - y), 2 * S(x) - S(y), 'S is linear', 1e-9)
    close(Si(2 * x - y), 2 * Si(x) - Si(y), 'its inverse is linear', 1e-9)
    check_derivs(S, x, rng, 'S', tol=1e-5)
    check_derivs(Si, x, rng, 'its inverse', tol=1e-5)
    close(H.todense(), A, 'H is not modified')
    f = lambda z: 0.5 * anp.dot(z, anp.dot(A, z)) + anp.sum(z)
    pf = ol.PreconditionedFunction(f)
    pf.set_preconditioner_functions(Si, S)
    close(autograd.hessian(pf)(x), np.eye(n), 'the Hessian of the preconditioned function is the identity', 1e-7)
    raises(ValueError, lambda: spl.get_sym_matrix_inv_sqrt_funcs(A), 'a dense matrix')
    # the scale of the matrix does not matter
    c = 10.0 ** int(rng.integers(-16, 17))
    S, Si = spl.get_sym_matrix_inv_sqrt_funcs(sps.csc_matrix(c * A))
    Sm = np.array([S(e) for e in np.eye(n)]).T
    Sim = np.array([Si(e) for e in np.eye(n)]).T
    close(Sm.T @ Sm / c, A, 'S^T S = H for a matrix of scale %g' % c, 1e-8, H=c * A)
    close(Sm @ Sim, np.eye(n), 'the second undoes the first at scale %g' % c, 1e-8)


# ------------------------------------------------- flags left to the pattern, return values of other types
@case('C14', 60)
def input_wrapper_default_flags(rng):
    flat = bool(rng.integers(0, 2))
    m = int(rng.integers(1, 4))
    pats, frees, args, want = [], [], [], []
    for i in range(m):
        d = bool(rng.integers(0, 2))
        p = pg.NumericVectorPattern(2, lb=-1.0, ub=4.0, free_default=d)
        v = rng.uniform(0, 3, 2)
        f = [None, True, False][rng.integers(0, 3)]
        mode = d if f is None else f
        x = p.flatten(v, free=mode)
        pats.append(p)
        frees.append(f)
        args.append(v if flat else x)
        want.append(x if flat else p.fold(x, free=mode))
    fun = Rec(1)
    free = frees[0] if len({repr(f) for f in frees}) == 1 else frees
    wrap_in(flat, fun, pats, free, None, rng)(*args)
    for i in range(m):
        need(same_any(fun.calls[0][0][i], want[i], 1e-9), 'a flag of None is the default of the pattern',
             got=fun.calls[0][0][i], want=want[i], frees=frees)


Named = namedtuple('Named', ['first', 'second', 'third'])


@case('C15', 60)
def output_wrapper_other_types(rng):
    flat = bool(rng.integers(0, 2))
    d = bool(rng.integers(0, 2))
    p = pg.NumericVectorPattern(2, lb=-1.0, ub=4.0, free_default=d)
    v = rng.uniform(0, 3, 2)
    f = [None, True, False][rng.integers(0, 3)]
    mode = d if f is None else f
    x = p.flatten(v, free=mode)
    given, want = (x, p.fold(x, free=mode)) if flat else (v, x)
    k = int(rng.integers(0, 3))
    rets = ['a', 'b', 'c']
    rets[k] = given
    r = wrap_out(flat, Rec(Named(*rets)), p, f, k, rng)()
    need(isinstance(r, tuple) and len(r) == 3, 'a named tuple is a tuple of return values', got=r)
    for i in range(3):
        need(same_any(r[i], want, 1e-9) if i == k else r[i] == rets[i], 'return value %d' % i, got=r, flag=f)


@case('C16', 60)
def preconditioner_again(rng):
    n = int(rng.integers(2, 4))
    f = quad(rng, n)
    pf = ol.PreconditionedFunction(f)
    a = cond_mat(rng, n)
    mats = [a, cond_mat(rng, n), sps.csc_matrix(a)]
    x = rng.normal(size=n)
    for _ in range(6):
        r = int(rng.integers(0, 5))
        if r < 3:
            pf.set_preconditioner_matrix(mats[r])
            A = mats[r] @ np.eye(n)
        elif r == 3:
            pf.set_identitity_preconditioner()
            A = np.eye(n)
        else:
            A = 2 * np.eye(n)
            pf.set_preconditioner_functions(lambda v: 2 * v, lambda v: 0.5 * v)
        close(pf(x), f(A @ x), 'the most recent of repeated preconditioners')
        close(pf.precondition(x), np.linalg.solve(A, x), 'its inverse')

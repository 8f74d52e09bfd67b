"""Derivatives of terms (oracle for the Jacobian contracts; written from calculus, not from the code)."""
from . import terms as tm
from .terms import (T, ZERO, ONE, num, add, sub, mul, neg, eq, and_, or_, not_, ite, inv, exp, log, sqrt, power,
                    poly_of, from_poly, sum_, fv, subst, bvar, open_binder)
from fractions import Fraction


class NoDerivative(Exception):
    pass


def diff(t, dapp, memo=None):
    """derivative of t; dapp(app) gives the derivative of an input entry (or None when the app is not an input)"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = memo[t] = _diff(t, dapp, memo)
    return r


def _diff(t, dapp, memo):
    op = t.op
    if op in ('const', 'true', 'false', 'strc', 'eq0', 'le0', 'lt0', 'eq', 'not', 'and', 'or', 'ex'):
        return ZERO
    if op == 'var':
        r = dapp(t)
        return ZERO if r is None else r
    if op == 'poly':
        out = ZERO
        for m, c in poly_of(t).items():
            for a, e in m:
                da = diff(a, dapp, memo)
                if da is ZERO:
                    continue
                rest = dict(m)
                rest[a] -= 1
                mono = tuple(sorted(((x, y) for x, y in rest.items() if y), key=lambda xy: xy[0].id))
                out = add(out, mul(from_poly({mono: c * e}, 'Real'), da))
        return out
    if op == 'par':
        return diff(t.args[0], dapp, memo)
    if op == 'ite':
        c, a, b = t.args
        return ite(c, diff(a, dapp, memo), diff(b, dapp, memo))
    if op == 'sum':
        lo, hi = t.args[:2]
        k = tm.scratch()
        body = open_binder(t, k)
        return sum_(lo, hi, k, diff(body, dapp, {}))
    if op == 'app':
        r = dapp(t)
        if r is not None:
            return r
        if t.val == 'exp':
            return mul(t, diff(t.args[0], dapp, memo))
        if t.val == 'log':
            return mul(inv(t.args[0]), diff(t.args[0], dapp, memo))
        if t.val == 'sqrt':
            return mul(num(Fraction(1, 2)), inv(t), diff(t.args[0], dapp, memo))
        if t.val == 'ELT':
            return diff(tm.open_elt(*t.args), dapp, memo)
        if t.val == 'CHOL':
            # the derivative of the Cholesky factor is a function of the matrix and of its derivative
            l, i, j = t.args
            r, q = tm.scratch(), tm.scratch()
            dl = tm.lam_(l.args[0], r, tm.lam_(l.args[0], q, diff(tm.open_elt(l, r, q), dapp, {})))
            return tm.app('DCHOL', (l, dl, i, j), 'Real')
        if t.val == 'vmax':
            # only differentiable away from ties; the callers' terms do not depend on it (see logsumexp)
            if diff(open_binder(t.args[0], tm.scratch()), dapp, {}) is ZERO:
                return ZERO
            raise NoDerivative('max')
        if t.sort == 'Int':
            return ZERO
        if any(depends(a, dapp) for a in t.args):
            raise NoDerivative(t.val)
        return ZERO
    raise NoDerivative(op)


def depends(t, dapp):
    for x in tm.subterms(t, into_sums=True):
        if x.op in ('app', 'var') and dapp(x) is not None:
            return True
    return False


def entry(name, jdx, sort='Real'):
    """derivative with respect to entry jdx of the input array `name`"""
    def d(t):
        if t.op == 'app' and t.val == name and len(t.args) == len(jdx):
            return ite(and_(*[eq(a, j) for a, j in zip(t.args, jdx)]), ONE, ZERO)
        return None
    return d

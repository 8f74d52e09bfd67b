"""Terms of the verification conditions.

Hash-consed immutable terms.  Numeric terms (sort Int or Real) are kept in a
canonical form: a polynomial with rational coefficients over atoms, where an
atom may carry a negative exponent.  A negative power, `log` and `sqrt` are only
built where the engine has already discharged the definedness obligation (the
denominator is non-zero, the argument positive), so that cancelling is sound.

Sums  sum_{lo <= k < hi} body(k)  are atoms with a canonical bound variable, so
that alpha-equivalent sums are the same term.
"""
from fractions import Fraction
from math import gcd, isqrt
import itertools

_table = {}
_ids = itertools.count()


class T:
    __slots__ = ('op', 'val', 'args', 'sort', 'id', '_fv', '_sd', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __bool__(self):
        raise TypeError('truth value of a term: %s' % show(self))


def _mk(op, val, args, sort):
    key = (op, val, tuple(a.id for a in args), sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.val, t.args, t.sort = op, val, tuple(args), sort
        t.id = next(_ids)
        t._fv = None
        t._sd = None
        _table[key] = t
    return t


# ---------------------------------------------------------------- constants
def num(x, sort=None):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        f = Fraction(x)
        return _mk('const', f, (), sort or 'Int')
    if isinstance(x, float):
        f = Fraction(x)
        return _mk('const', f, (), 'Real')
    if isinstance(x, Fraction):
        return _mk('const', x, (), sort or ('Int' if x.denominator == 1 else 'Real'))
    raise TypeError(x)


TRUE = _mk('true', None, (), 'Bool')
FALSE = _mk('false', None, (), 'Bool')
ZERO = num(0)
ONE = num(1)


def boolc(b):
    return TRUE if b else FALSE


def var(name, sort):
    return _mk('var', name, (), sort)


_fresh_ctr = [0]


def fresh(prefix, sort):
    _fresh_ctr[0] += 1
    return var('%s!%d' % (prefix, _fresh_ctr[0]), sort)


SMART = {}           # function name -> simplification of its applications


def app(fname, args, sort):
    f = SMART.get(fname)
    if f is not None:
        r = f(args, sort)
        if r is not None:
            return r
    return _mk('app', fname, tuple(args), sort)


def is_num(t):
    return t.sort in ('Int', 'Real')


# ---------------------------------------------------------------- polynomials
# poly dict: mono -> Fraction ; mono = tuple of (atom, exp) sorted by atom id
def poly_of(t):
    if t.op == 'const':
        return {(): t.val} if t.val != 0 else {}
    if t.op == 'poly':
        return dict(zip(_mono_cache[t.id], t.val[1]))
    return {((t, 1),): Fraction(1)}


_mono_cache = {}


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def _integer_valued(items):
    """does the polynomial take integer values at all integer points?  Decided exactly by its values on
    the grid {0..deg}^vars (the binomial basis)"""
    deg = {}
    for m, _ in items:
        for a, e in m:
            deg[a] = max(deg.get(a, 0), e)
    size = 1
    for d in deg.values():
        size *= d + 1
    if size > 200:
        return False
    vs = list(deg)
    for pt in itertools.product(*[range(deg[v] + 1) for v in vs]):
        env = dict(zip(vs, pt))
        tot = Fraction(0)
        for m, c in items:
            x = c
            for a, e in m:
                x *= env[a] ** e
            tot += x
        if tot.denominator != 1:
            return False
    return True


def from_poly(p, want=None):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return num(0, want or 'Int')
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            if want:
                return num(c, want if want == 'Real' or c.denominator == 1 else 'Real')
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
    monos = tuple(m for m, _ in items)
    coefs = tuple(c for _, c in items)
    sort = 'Int'
    frac = False
    for m, c in items:
        if c.denominator != 1:
            frac = True
        for a, e in m:
            if a.sort != 'Int' or e < 0:
                sort = 'Real'
    if frac and sort == 'Int' and not _integer_valued(items):
        sort = 'Real'
    atoms = []
    shape = []
    for m in monos:
        shape.append(tuple(e for _, e in m))
        atoms.extend(a for a, _ in m)
    t = _mk('poly', (tuple(shape), coefs), tuple(atoms), sort)
    if t.id not in _mono_cache:
        _mono_cache[t.id] = monos
    return t


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    out = [(a, e) for a, e in d.items() if e != 0]
    # sqrt(u)^2 -> u ; par(P)^+n -> expand
    extra = None
    res = []
    for a, e in out:
        if a.op == 'app' and a.val == 'sqrt' and abs(e) >= 2:
            n, r = divmod(abs(e), 2)
            s = 1 if e > 0 else -1
            if r:
                res.append((a, s))
            base = poly_of(a.args[0])
            f = _poly_pow(base, s * n)
            extra = f if extra is None else _poly_mul(extra, f)
        elif a.op == 'par' and e > 0:
            f = _poly_pow(poly_of(a.args[0]), e)
            extra = f if extra is None else _poly_mul(extra, f)
        else:
            res.append((a, e))
    # merge exp atoms:  exp(c1*m) * exp(c2*m)
    return tuple(sorted(res, key=lambda ae: ae[0].id)), extra


def _poly_mul(p, q):
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m, extra = _mono_mul(m1, m2)
            c = c1 * c2
            if extra is None:
                out[m] = out.get(m, 0) + c
            else:
                for m3, c3 in _poly_mul({m: c}, extra).items():
                    out[m3] = out.get(m3, 0) + c3
    return {m: c for m, c in out.items() if c != 0}


def _lex(m):
    return tuple(sorted(((a.id, e) for a, e in m), reverse=True))


def _mono_div(m, d):
    """m / d when every exponent of d is at most that of m, else None"""
    dm = dict(m)
    for a, e in d:
        if dm.get(a, 0) < e:
            return None
        dm[a] -= e
    return tuple(sorted(((a, e) for a, e in dm.items() if e), key=lambda ae: ae[0].id))


_par_lm = {}


def _reduce_pars(p):
    """canonical form modulo P * P^-1 = 1: rewrite LM(P) * P^-1 -> 1 - (P - LM(P)) * P^-1"""
    todo = list(p.items())
    out = {}
    n = 0
    while todo:
        m, c = todo.pop()
        hit = None
        for a, e in m:
            if a.op == 'par' and e < 0:
                info = _par_lm.get(a)
                if info is None:
                    q = poly_of(a.args[0])
                    lm = max(q, key=_lex)
                    info = _par_lm[a] = (lm, {x: -y for x, y in q.items() if x != lm})
                lm, rest = info
                d = _mono_div(m, lm)
                if d is not None:
                    hit = (a, d, rest)
                    break
        if hit is None:
            out[m] = out.get(m, 0) + c
            continue
        n += 1
        if n > 3000:
            out[m] = out.get(m, 0) + c
            continue
        a, d, rest = hit
        up, extra = _mono_mul(d, ((a, 1),)) if dict(d).get(a, 0) < 0 else (d, None)
        for mm, cc in (_poly_mul({up: c}, extra) if extra else {up: c}).items():
            todo.append((mm, cc))
        for mm, cc in _poly_mul({d: c}, rest).items():
            todo.append((mm, cc))
    return {m: c for m, c in out.items() if c != 0}


def _poly_inv(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        raise ZeroDivisionError
    if len(p) == 1:
        (m, c), = p.items()
        mm, extra = _mono_mul(tuple((a, -e) for a, e in m), ())
        r = {mm: 1 / c}
        return r if extra is None else _poly_mul(r, extra)
    # pull out common monomial factor and leading coefficient
    atoms = {}
    for m in p:
        for a, _ in m:
            atoms.setdefault(a, None)
    common = []
    for a in atoms:
        es = [dict(m).get(a, 0) for m in p]
        e = min(es)
        if e != 0:
            common.append((a, e))
    common = tuple(sorted(common, key=lambda ae: ae[0].id))
    inv_common = tuple((a, -e) for a, e in common)
    q = {}
    for m, c in p.items():
        mm, extra = _mono_mul(m, inv_common)
        if extra is None:
            q[mm] = q.get(mm, 0) + c
        else:
            for m3, c3 in _poly_mul({mm: c}, extra).items():
                q[m3] = q.get(m3, 0) + c3
    q = {m: c for m, c in q.items() if c != 0}
    lead = q[max(q, key=_lex)]
    q = {m: c / lead for m, c in q.items()}
    if len(q) == 1 and () in q:
        return {inv_common: 1 / lead}
    par = _mk('par', None, (from_poly(q, 'Real'),), 'Real')
    mm, extra = _mono_mul(inv_common, ((par, -1),))
    r = {mm: 1 / lead}
    return r if extra is None else _poly_mul(r, extra)


def _poly_pow(p, n):
    if n < 0:
        return _poly_pow(_poly_inv(p), -n)
    r = {(): Fraction(1)}
    for _ in range(n):
        r = _poly_mul(r, p)
    return r


def add(*ts):
    p = {}
    want = 'Int'
    for t in ts:
        assert is_num(t), t
        if t.sort == 'Real':
            want = 'Real'
        for m, c in poly_of(t).items():
            p[m] = p.get(m, 0) + c
    return from_poly(p, want)


def mul(*ts):
    p = {(): Fraction(1)}
    want = 'Int'
    for t in ts:
        assert is_num(t), t
        if t.sort == 'Real':
            want = 'Real'
        p = _poly_mul(p, poly_of(t))
    p = _reduce_pars(p)
    return from_poly(p, want)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def inv(t):
    """1/t ; only called when t != 0 has been established."""
    return from_poly(_reduce_pars(_poly_inv(poly_of(t))), 'Real')


def div(a, b):
    return mul(a, inv(b))


def power(t, n):
    if n < 0:
        return from_poly(_reduce_pars(_poly_pow(poly_of(t), n)), 'Real')
    return from_poly(_poly_pow(poly_of(t), n), t.sort)


def idiv(a, b):
    if a.op == 'const' and b.op == 'const' and b.val != 0:
        return num(int(a.val // b.val))
    if b.op == 'const' and b.val == 1:
        return a
    return app('idiv', (a, b), 'Int')


def imod(a, b):
    if a.op == 'const' and b.op == 'const' and b.val != 0:
        return num(int(a.val % b.val))
    if b.op == 'const' and b.val == 1:
        return num(0)
    return app('imod', (a, b), 'Int')


# ---------------------------------------------------------------- exp, log, ...
def exp(t):
    if t.op == 'ite':
        return ite(t.args[0], exp(t.args[1]), exp(t.args[2]))
    p = poly_of(t)
    res = num(1, 'Real')
    for m, c in p.items():
        if m == ():
            base = _mk('app', 'exp', (num(c if c > 0 else -c, 'Real'),), 'Real')
            res = mul(res, base if c > 0 else inv(base))
            continue
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].val == 'log' \
                and c.denominator == 1:
            u = m[0][0].args[0]
            res = mul(res, power(u, int(c)))
            continue
        # exp(n * m) = exp(m)^n for an integer n
        n = c.numerator
        mm = from_poly({m: Fraction(1, c.denominator)}, 'Real')
        if mm.op == 'ite':
            res = mul(res, power(exp(mm), n))
            continue
        e = _mk('app', 'exp', (mm,), 'Real')
        res = mul(res, power(e, n))
    return res


def log(t):
    """log(t); only called when t > 0 has been established."""
    if t.op == 'ite':
        return ite(t.args[0], log(t.args[1]), log(t.args[2]))
    p = poly_of(t)
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0:
            out = num(0, 'Real')
            rest = []
            for a, e in m:
                if a.op == 'app' and a.val == 'exp':
                    out = add(out, mul(num(e), a.args[0]))
                else:
                    rest.append((a, e))
            if len(rest) == 0:
                if c != 1:
                    out = add(out, _mk('app', 'log', (num(c, 'Real'),), 'Real'))
                return out
            if c == 1 and len(rest) == 1:
                a, e = rest[0]
                # a^e > 0; for odd e this means a > 0
                if e % 2 == 1 or e % 2 == -1:
                    u = a.args[0] if a.op == 'par' else a
                    if not (u.op == 'const'):
                        return add(out, mul(num(e), _mk('app', 'log', (u,), 'Real')))
            t2 = from_poly({tuple(rest): c}, 'Real')
            return add(out, _mk('app', 'log', (t2,), 'Real'))
    return _mk('app', 'log', (t,), 'Real')


def sqrt(t):
    """sqrt(t); only called when t >= 0 has been established."""
    if t.op == 'const':
        n, d = t.val.numerator, t.val.denominator
        if n >= 0 and isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
            return num(Fraction(isqrt(n), isqrt(d)), 'Real')
    p = poly_of(t)
    return _mk('app', 'sqrt', (t,), 'Real')


# ---------------------------------------------------------------- booleans
def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'le0':      # not (p <= 0)  <=>  -p < 0
        return lt(ZERO, t.args[0])
    if t.op == 'lt0':
        return le(ZERO, t.args[0])
    return _mk('not', None, (t,), 'Bool')


def and_(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == 'and':
            out.extend(t.args)
        else:
            out.append(t)
    out = sorted(set(out), key=lambda t: t.id)
    s = set(out)
    for t in out:
        if not_(t) in s:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', None, tuple(out), 'Bool')


def or_(*ts):
    return _or(ts)


def _or(ts):
    out = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        if t.op == 'or':
            out.extend(t.args)
        else:
            out.append(t)
    out = sorted(set(out), key=lambda t: t.id)
    s = set(out)
    for t in out:
        if not_(t) in s:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk('or', None, tuple(out), 'Bool')


def implies(a, b):
    return _or((not_(a), b))


def iff(a, b):
    return eq(a, b)


def _sign_norm(p):
    """scale polynomial to have leading coefficient with abs value 1 (>0 scale)."""
    items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
    lead = items[-1][1]
    return abs(lead), (1 if lead > 0 else -1)


def eq(a, b):
    if a is b:
        return TRUE
    if is_num(a) and is_num(b):
        p = poly_of(sub(a, b))
        if not p:
            return TRUE
        if list(p) == [()]:
            return FALSE
        sc, sg = _sign_norm(p)
        q = {m: c / (sc * sg) for m, c in p.items()}
        if a.sort == 'Int' and b.sort == 'Int':
            # keep integer coefficients
            den = 1
            for c in q.values():
                den = den * c.denominator // gcd(den, c.denominator)
            q = {m: c * den for m, c in q.items()}
            if () in q:
                g = 0
                for m, c in q.items():
                    if m != ():
                        g = gcd(g, int(c))
                if g and int(q[()]) % g != 0:
                    return FALSE
        return _mk('eq0', None, (from_poly(q),), 'Bool')
    assert not (is_num(a) or is_num(b)), (a, b)
    if a.sort == 'Bool':
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if not_(a) is b:
            return FALSE
    assert a.sort == b.sort, (a, b, a.sort, b.sort)
    if a.id > b.id:
        a, b = b, a
    if a.op == 'strc' and b.op == 'strc':
        return FALSE
    if a.op == b.op == 'app' and a.val == b.val == 'key':
        return eq(a.args[0], b.args[0])          # the keys of a dictionary are distinct
    return _mk('eq', None, (a, b), 'Bool')


def le(a, b):
    p = poly_of(sub(a, b))
    if not p:
        return TRUE
    if list(p) == [()]:
        return boolc(p[()] <= 0)
    sc, sg = _sign_norm(p)
    if a.sort == 'Int' and b.sort == 'Int':
        sc = 1
    return _mk('le0', None, (from_poly({m: c / sc for m, c in p.items()}),), 'Bool')


def lt(a, b):
    if a.sort == 'Int' and b.sort == 'Int':
        return le(add(a, ONE), b)
    p = poly_of(sub(a, b))
    if not p:
        return FALSE
    if list(p) == [()]:
        return boolc(p[()] < 0)
    sc, sg = _sign_norm(p)
    return _mk('lt0', None, (from_poly({m: c / sc for m, c in p.items()}),), 'Bool')


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def ne(a, b):
    return not_(eq(a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'Bool':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return _or((and_(c, a), and_(not_(c), b)))
    if c.op == 'not':
        return ite(c.args[0], b, a)
    sort = a.sort
    if is_num(a):
        sort = 'Int' if a.sort == b.sort == 'Int' else 'Real'
        # ite(c, a, b) nested with the same condition
        if a.op == 'ite' and a.args[0] is c:
            a = a.args[1]
        if b.op == 'ite' and b.args[0] is c:
            b = b.args[2]
        if sort == 'Real':
            # one form of a constant beside a real number
            if a.op == 'const' and a.sort == 'Real' and b.op != 'const' and a.val == int(a.val):
                a, sort = num(int(a.val)), b.sort
            elif b.op == 'const' and b.sort == 'Real' and a.op != 'const' and b.val == int(b.val):
                b, sort = num(int(b.val)), a.sort
        if a is b:
            return a
    return _mk('ite', None, (c, a, b), sort)


def strc(s):
    """a concrete string as a term of the uninterpreted sort Key"""
    return _mk('strc', s, (), 'U:Key')


# ---------------------------------------------------------------- structure
# binders: the last argument is the body, over the canonical bound variable bvar(t)
#   sum(lo, hi, body)   ex(lo, hi, body)   lam(n, body)
BINDERS = ('sum', 'ex', 'lam')


def sumdepth(t):
    if t._sd is None:
        d = 0
        for a in t.args:
            d = max(d, sumdepth(a))
        if t.op in BINDERS:
            d += 1
        t._sd = d
    return t._sd


def fv(t):
    """free variables (terms)"""
    if t._fv is None:
        if t.op == 'var':
            s = frozenset([t])
        elif t.op in BINDERS:
            s = fv(t.args[-1]) - {bvar(t)}
            for a in t.args[:-1]:
                s = s | fv(a)
        else:
            s = frozenset()
            for a in t.args:
                s = s | fv(a)
        t._fv = s
    return t._fv


def bvar(t):
    return var('#%d' % sumdepth(t), 'Int')


def subst(t, mp, memo=None):
    """simultaneous substitution of free variables (dict var-term -> term)"""
    if not mp:
        return t
    if memo is None:
        memo = {}
    keys = set(mp)
    return _subst(t, mp, keys, memo)


def _subst(t, mp, keys, memo):
    if not (fv(t) & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'var':
        r = mp[t]
    elif t.op in BINDERS:
        k = scratch()
        b = subst(t.args[-1], {bvar(t): k})
        b = _subst(b, mp, keys, memo)
        r = bind(t.op, [_subst(a, mp, keys, memo) for a in t.args[:-1]], k, b)
    else:
        args = [_subst(a, mp, keys, memo) for a in t.args]
        r = rebuild(t, args)
    memo[t] = r
    return r


def rebuild(t, args):
    op = t.op
    if op == 'poly':
        shape, coefs = t.val
        i = 0
        p = {}
        for es, c in zip(shape, coefs):
            q = {(): c}
            for e in es:
                q = _poly_mul(q, _poly_pow(poly_of(args[i]), e))
                i += 1
            for m, cc in q.items():
                p[m] = p.get(m, 0) + cc
        return from_poly(_reduce_pars(p), t.sort)
    if op == 'par':
        return args[0]
    if op == 'app':
        f = t.val
        if f == 'exp':
            return exp(args[0])
        if f == 'log':
            return log(args[0])
        if f == 'sqrt':
            return sqrt(args[0])
        if f == 'idiv':
            return idiv(*args)
        if f == 'imod':
            return imod(*args)
        return app(f, args, t.sort)
    if op == 'eq0':
        return eq(args[0], ZERO)
    if op == 'eq':
        return eq(*args)
    if op == 'le0':
        return le(args[0], ZERO)
    if op == 'lt0':
        return lt(args[0], ZERO)
    if op == 'not':
        return not_(args[0])
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return _or(args)
    if op == 'ite':
        return ite(*args)
    raise AssertionError(op)


def replace_apps(t, fn, memo=None, under=True):
    """bottom-up rewriting of every sub-term by fn(term) -> term or None."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args:
        r = t
    elif t.op in BINDERS and not under:
        r = t
    elif t.op in BINDERS:
        k = scratch()
        b = replace_apps(subst(t.args[-1], {bvar(t): k}), fn, memo, under)
        r = bind(t.op, [replace_apps(a, fn, memo, under) for a in t.args[:-1]], k, b)
    else:
        r = rebuild(t, [replace_apps(a, fn, memo, under) for a in t.args])
    x = fn(r)
    if x is not None:
        r = x
    memo[t] = r
    return r


def subterms(t, acc=None, into_sums=False):
    """all sub-terms; bodies of sums only if into_sums."""
    if acc is None:
        acc = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in acc:
            continue
        acc.add(x)
        if x.op in BINDERS and not into_sums:
            stack.extend(x.args[:-1])
        else:
            stack.extend(x.args)
    return acc


# ---------------------------------------------------------------- sums
def over_selected(inn, k, hi):
    """sum_{k < number selected} f(k-th selected position) = sum_j [j is selected] f(j), None if it is not such a sum"""
    sels = {x for a, _ in inn for x in subterms(a, into_sums=True)
            if x.op == 'app' and x.val == 'SEL' and x.args[1] is k}
    if len(sels) != 1:
        return None
    w, = sels
    L = w.args[0]
    if L.op != 'lam' or k in fv(L):
        return None
    j = scratch()
    chosen = open_binder(L, j)
    if sum_(ZERO, L.args[0], j, chosen) is not hi:
        return None
    inn2 = [(replace(a, {w: j}), e) for a, e in inn]
    if any(k in fv(a) for a, _ in inn2):
        return None
    return sum_(ZERO, L.args[0], j, mul(chosen, from_poly({tuple(inn2): Fraction(1)})))


def sum_(lo, hi, k, body):
    """sum of body over k in [lo, hi); hi >= lo is an engine invariant (sizes are >= 0)."""
    if lo.op == 'const' and hi.op == 'const' and hi.val - lo.val <= 4:
        out = num(0, body.sort)
        n = int(lo.val)
        while n < hi.val:
            out = add(out, subst(body, {k: num(n)}))
            n += 1
        return out
    if lo is hi:
        return num(0, body.sort)
    if lo is not ZERO:
        return sum_(ZERO, sub(hi, lo), k, subst(body, {k: add(k, lo)}))
    out = num(0, body.sort)
    for m, c in poly_of(body).items():
        inn, outer = [], []
        for a, e in m:
            (inn if k in fv(a) else outer).append((a, e))
        coef = from_poly({tuple(outer): c})
        if not inn:
            out = add(out, mul(coef, sub(hi, lo)))
            continue
        if len(inn) == 1 and inn[0][0] is k and inn[0][1] in (1, 2) and k.sort == 'Int':
            # 0 + 1 + ... and 0 + 1 + 4 + ...
            p = mul(hi, sub(hi, ONE)) if inn[0][1] == 1 else mul(hi, sub(hi, ONE), sub(mul(num(2), hi), ONE))
            q = from_poly({m2: c2 / (2 if inn[0][1] == 1 else 6) for m2, c2 in poly_of(p).items()}, 'Int')
            out = add(out, mul(coef, q))
            continue
        sel = over_selected(inn, k, hi)
        if sel is not None:
            out = add(out, mul(coef, sel))
            continue
        # a factor that does not depend on k, chosen by a condition that does
        for idx, (a, e) in enumerate(inn):
            if a.op == 'ite' and e == 1 and a.args[2].op == 'const' and a.args[2].val == 0 and \
                    a.args[1] is not ONE and a.args[1].op != 'const' and k not in fv(a.args[1]):
                coef = mul(coef, a.args[1])
                one = ite(a.args[0], num(1, a.args[1].sort), num(0, a.args[1].sort))
                if one.op == 'ite':
                    inn[idx] = (one, 1)
        # Kronecker delta:  ite(k == e, A, B) * rest
        done = False
        for idx, (a, e) in enumerate(inn):
            if a.op == 'ite' and e > 0:
                sol = solve_eq(a.args[0], k)
                if sol is ZERO and ORACLE(lt(ZERO, hi)):
                    rest = from_poly({tuple(x for j, x in enumerate(inn) if j != idx): Fraction(1)})
                    first = subst(mul(power(a.args[1], e), rest), {k: ZERO})
                    tail = sum_(ONE, hi, k, mul(power(a.args[2], e), rest))
                    out = add(out, mul(coef, add(first, tail)))
                    done = True
                    break
                if sol is not None and sol is not ZERO:
                    cnd, A, B = a.args
                    rest = from_poly({tuple(x for j, x in enumerate(inn) if j != idx): Fraction(1)})
                    pa, pb = power(A, e), power(B, e)
                    s1 = sum_(lo, hi, k, mul(pb, rest))
                    at = subst(mul(sub(pa, pb), rest), {k: sol})
                    hit = and_(le(lo, sol), lt(sol, hi))
                    out = add(out, mul(coef, add(s1, ite(hit, at, num(0, at.sort)))))
                    done = True
                    break
                cut = split_at(a.args[0], k)
                if cut is not None and ORACLE(and_(le(ZERO, cut[0]), le(cut[0], hi))):
                    c_, low, high = cut[0], a.args[1 if cut[1] else 2], a.args[2 if cut[1] else 1]
                    rest = from_poly({tuple(x for j, x in enumerate(inn) if j != idx): Fraction(1)})
                    out = add(out, mul(coef, add(sum_(ZERO, c_, k, mul(power(low, e), rest)),
                                                 sum_(c_, hi, k, mul(power(high, e), rest)))))
                    done = True
                    break
        if done:
            continue
        b = from_poly({tuple(inn): Fraction(1)}, None)
        s = _canon_bind('sum', (lo, hi), k, b, b.sort)
        out = add(out, mul(coef, s))
    return out


def ORACLE(goal):
    """does the current context entail goal?  (replaced by the engine)"""
    return goal is TRUE


def set_oracle(f):
    global ORACLE
    ORACLE = f


def split_at(c, k):
    """(e, True) if c is  k < e ; (e, False) if c is  k >= e ; for e free of k"""
    if c.op != 'le0':
        return None
    p = poly_of(c.args[0])
    ck = p.get(((k, 1),))
    if ck not in (1, -1):
        return None
    r = from_poly({m: x for m, x in p.items() if m != ((k, 1),)}, 'Int')
    if k in fv(r) or r.sort != 'Int':
        return None
    if ck == 1:                      # k + r <= 0  <=>  k < 1 - r
        return sub(ONE, r), True
    return r, False                  # -k + r <= 0  <=>  k >= r


def _canon_bind(op, rest, k, b, sort):
    d = 1 + max([sumdepth(b)] + [sumdepth(r) for r in rest])
    bb = subst(b, {k: var('#%d' % d, 'Int')})
    d2 = 1 + max([sumdepth(bb)] + [sumdepth(r) for r in rest])
    if d2 != d:
        bb = subst(b, {k: var('#%d' % d2, 'Int')})
    return _mk(op, None, tuple(rest) + (bb,), sort)


def ex_(lo, hi, k, body):
    """exists k in [lo, hi): body"""
    if body is FALSE or lo is hi:
        return FALSE
    if lo.op == 'const' and hi.op == 'const':
        if hi.val <= lo.val:
            return FALSE
        if hi.val - lo.val <= 4:
            return _or([subst(body, {k: num(n)}) for n in range(int(lo.val), int(hi.val))])
    if k not in fv(body):
        return and_(lt(lo, hi), body)
    if body.op == 'or':
        return _or([ex_(lo, hi, k, b) for b in body.args])
    if body.op == 'and':
        inn = [b for b in body.args if k in fv(b)]
        out = [b for b in body.args if k not in fv(b)]
        for b in inn:
            sol = solve_eq(b, k)
            if sol is not None:
                return and_(le(lo, sol), lt(sol, hi), subst(body, {k: sol}))
        if out:
            return and_(ex_(lo, hi, k, and_(*inn)), *out)
    sol = solve_eq(body, k)
    if sol is not None:
        return and_(le(lo, sol), lt(sol, hi))
    return _canon_bind('ex', (lo, hi), k, body, 'Bool')


def all_(lo, hi, k, body):
    return not_(ex_(lo, hi, k, not_(body)))


def lam_(n, k, body):
    """the vector of length n with entries body(k)"""
    return _canon_bind('lam', (n,), k, body, 'U:Vec')


def bind(op, rest, k, b):
    if op == 'sum':
        return sum_(rest[0], rest[1], k, b)
    if op == 'ex':
        return ex_(rest[0], rest[1], k, b)
    return lam_(rest[0], k, b)


def open_elt(l, i, j):
    """element of the matrix  [[t(r, c): c]: r]"""
    return open_binder(open_binder(l, i), j)


def smart_elt(args, sort):
    l, i, j = args
    if l.op != 'lam' or l.args[-1].op != 'lam':
        return None
    t = open_elt(l, i, j)
    return t if t.op in ('const', 'var') or t.op == 'app' and t.val != 'ELT' else None


SMART['ELT'] = smart_elt


def divide_poly(a, m):
    """a / m when m is an atom that divides every monomial of a"""
    if m.op not in ('var', 'app'):
        return None
    out = {}
    for mono, c in poly_of(a).items():
        d = dict(mono)
        if d.get(m, 0) < 1:
            return None
        d[m] -= 1
        out[tuple(sorted(((y, z) for y, z in d.items() if z), key=lambda yz: yz[0].id))] = c
    r = from_poly(out, 'Int')
    return r if r.sort == 'Int' else None


def replace(t, mp, memo=None):
    """replace closed or free sub-terms"""
    if memo is None:
        memo = {}
    r = mp.get(t)
    if r is not None:
        return r
    if not t.args:
        return t
    r = memo.get(t)
    if r is None:
        if t.op in BINDERS:
            k = scratch()
            r = bind(t.op, [replace(a, mp, memo) for a in t.args[:-1]], k,
                     replace(subst(t.args[-1], {bvar(t): k}), mp, memo))
        else:
            r = rebuild(t, [replace(a, mp, memo) for a in t.args])
        memo[t] = r
    return r


def open_binder(t, k):
    return subst(t.args[-1], {bvar(t): k})


_scratch_ctr = [0]


def scratch():
    _scratch_ctr[0] += 1
    return var('%%%d' % _scratch_ctr[0], 'Int')


def reset_fresh():
    _fresh_ctr[0] = 0


def solve_eq(c, k):
    """if c is  k == e  with e free of k, return e"""
    if c.op == 'eq0':
        p = poly_of(c.args[0])
        ck = p.get(((k, 1),))
        if ck in (1, -1):
            rest = {m: x for m, x in p.items() if m != ((k, 1),)}
            r = from_poly(rest, 'Int')
            if k in fv(r) or r.sort != 'Int':
                return None
            return mul(num(-ck), r) if ck == 1 else r
    return None


def open_sum(t, k):
    """(lo, hi, body) with the bound variable replaced by k"""
    lo, hi, body = t.args
    return lo, hi, subst(body, {bvar(t): k})


# ---------------------------------------------------------------- printing
def show(t):
    if t.op == 'const':
        return str(t.val)
    if t.op in ('var', 'strc'):
        return str(t.val)
    if t.op == 'true' or t.op == 'false':
        return t.op
    if t.op == 'poly':
        parts = []
        for m, c in poly_of(t).items():
            fs = [show(a) + ('' if e == 1 else '^%d' % e) for a, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            parts.append('*'.join(fs))
        return '(' + ' + '.join(parts) + ')'
    if t.op == 'par':
        return show(t.args[0])
    if t.op == 'sum':
        return 'sum[%s,%s)(%s: %s)' % (show(t.args[0]), show(t.args[1]), bvar(t).val, show(t.args[2]))
    if t.op == 'ex':
        return '(exists %s in [%s,%s): %s)' % (bvar(t).val, show(t.args[0]), show(t.args[1]), show(t.args[2]))
    if t.op == 'lam':
        return '[%s: %s < %s]' % (show(t.args[1]), bvar(t).val, show(t.args[0]))
    if t.op == 'app':
        return '%s(%s)' % (t.val, ', '.join(map(show, t.args)))
    if t.op == 'eq0':
        return '%s = 0' % show(t.args[0])
    if t.op == 'le0':
        return '%s <= 0' % show(t.args[0])
    if t.op == 'lt0':
        return '%s < 0' % show(t.args[0])
    if t.op == 'eq':
        return '%s = %s' % (show(t.args[0]), show(t.args[1]))
    if t.op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(map(show, t.args))
    return '%s(%s)' % (t.op, ', '.join(map(show, t.args)))

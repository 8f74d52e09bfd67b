"""Symbolic execution of the real source, with inductive treatment of loops over symbolic sequences."""
import ast
import os
import re
from contextlib import contextmanager
from fractions import Fraction
from . import terms as tm
from .terms import (T, TRUE, FALSE, ZERO, ONE, num, add, sub, mul, neg, le, lt, ge, gt, eq, ne, not_, and_,
                    or_, ite, subst, poly_of, from_poly, fv, ex_, all_, sum_, app, fresh)
from . import prover
from .values import *

INF = float('inf')


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class HoleIter(Unsupported):
    """a sequence whose start is not known yet (it is being worked out) was looked at"""

    def __init__(self, hole):
        Unsupported.__init__(self, 'iteration over a sequence under construction')
        self.hole = hole


class Star:
    def __init__(self, segs):
        self.segs = tuple(segs)


class Obligation:
    __slots__ = ('name', 'goal', 'facts', 'ok', 'model', 'note', 'path', 'backend')

    def __init__(self, name, goal, facts, ok, model=None, note=''):
        self.name, self.goal, self.facts, self.ok, self.model, self.note = name, goal, facts, ok, model, note
        self.path = ''
        self.backend = ''


class Decider:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.log = []
        self.alts = []

    def choose(self, t):
        i = len(self.taken)
        if i < len(self.prefix):
            b = self.prefix[i]
        else:
            b = True
            self.alts.append(self.taken + [False])
        self.taken.append(b)
        self.log.append((t, b))
        return b


class StoredList(tuple):
    """segments standing for a list whose elements are replaced by a loop"""


class Ctx:
    """one path of one specification"""

    def __init__(self, prefix=(), run=None):
        self.facts = []
        self.heap = []
        self.deciders = [Decider(prefix)]
        self.quiet = 0
        self.run = run
        self.epoch = 0
        self.labels = []
        self.events = None
        self.locked = []
        self.dual = []
        self.objs = []
        self.tensor = False
        self.norms = []
        self.infeasible = False

    # -- facts
    def assume(self, t):
        if t is TRUE:
            return
        if t.op == 'and':
            for a in t.args:
                self.assume(a)
            return
        if t is FALSE:
            raise PathDead()
        self.facts.append(t)
        Ctx.epochs += 1
        self.epoch = ('a', Ctx.epochs)

    @contextmanager
    def scope(self, facts=()):
        n = len(self.facts)
        e = self.epoch
        try:
            for f in facts:
                for g in (f.args if f.op == 'and' else (f,)):
                    if g is not TRUE:
                        self.facts.append(g)
            Ctx.epochs += 1
            self.epoch = ('s', Ctx.epochs)
            yield
        finally:
            del self.facts[n:]
            Ctx.epochs += 1
            self.epoch = e if n == len(self.facts) and not facts else ('s', Ctx.epochs)

    epochs = 0

    def prove(self, goal, effort=1, timeout=1500):
        if goal is TRUE:
            return True
        if goal is FALSE and not self.facts:
            return False
        if self.quiet and any(v.val.startswith('w!') for v in fv(goal)):
            # about a loop variable whose value is not worked out yet
            effort, timeout = 0, 300
        return prover.prove(self.facts, goal, timeout=timeout, effort=effort)

    def decide(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if self.prove(t):
            return True
        if self.prove(not_(t)):
            return False
        if self.rewriter is not None and any(x.op == 'app' and x.val in ('PART', 'FOLD', 'FOLDA')
                                             for x in tm.subterms(t, into_sums=True)):
            u = self.rewriter(t)
            if u is not t:
                if self.prove(u):
                    return True
                if self.prove(not_(u)):
                    return False
        b = self.deciders[-1].choose(t)
        self.assume(t if b else not_(t))
        return b

    # -- obligations
    rewriter = None

    def oblige(self, name, goal, note='', timeout=None):
        if self.quiet:
            return True
        ok = self.tensor and self.tensor_zero(goal)
        if not ok:
            ok = prover.prove(self.facts, goal, timeout=timeout or self.run.timeout, want_model=True, effort=2)
        elif ok:
            prover.STATS['simplifier'] += 1
        if not ok and self.rewriter is not None:
            model = prover.LAST_MODEL[0]
            g2 = self.rewriter(goal)
            if g2 is not goal:
                ok = prover.prove(self.facts, g2, timeout=timeout or self.run.timeout, want_model=True, effort=2)
        o = Obligation(name, goal, list(self.facts), ok, None if ok else prover.LAST_MODEL[0], note)
        o.path = ' & '.join(self.labels)
        self.run.record(o)
        return ok

    def tensor_zero(self, goal):
        from .tensor import is_zero
        return goal.op == 'eq0' and goal.args[0].sort == 'Real' and is_zero(self, goal.args[0])

    def fail(self, name, note):
        if self.quiet:
            return
        o = Obligation(name, FALSE, list(self.facts), False, None, note)
        if self.prove(FALSE, effort=2, timeout=3000):
            o.ok = True
            o.note = 'path infeasible'
        o.path = ' & '.join(self.labels)
        self.run.record(o)

    # -- heap
    def snapshot(self):
        return len(self.heap), [(o, o.save()) for o in self.heap]

    def restore(self, snap):
        n, saved = snap
        for o, s in saved:
            o.restore(s)
        del self.heap[n:]

    def explore(self, body):
        """all paths of body() from the current state: [(conds, facts, outcome, post)]"""
        entry = self.snapshot()
        n = len(self.facts)
        e = self.epoch
        out = []
        stack = [[]]
        while stack:
            if len(out) > 64:
                raise Unsupported('too many paths in a loop body')
            prefix = stack.pop()
            self.restore(entry)
            del self.facts[n:]
            Ctx.epochs += 1
            self.epoch = ('x', Ctx.epochs)
            dec = Decider(prefix)
            self.deciders.append(dec)
            outcome = None
            try:
                outcome = body()
            except PathDead:
                outcome = None
            finally:
                self.deciders.pop()
            stack.extend(dec.alts)
            if outcome is not None:
                conds = [c if b else not_(c) for c, b in dec.log]
                post = {}
                for o, s in entry[1]:
                    post[id(o)] = (o, o.save())
                out.append((conds, self.facts[n:], outcome, post))
        self.restore(entry)
        del self.facts[n:]
        self.epoch = e
        return out


MANGLE = lambda name, cls: name


class Interp:
    def __init__(self, cx, world):
        self.cx = cx
        self.world = world
        self.depth = 0
        self.frames = []
        tm.set_oracle(lambda g: cx.prove(g, effort=0, timeout=400))

    # ================================================================ helpers
    def raise_(self, cls, *args):
        raise PyRaise(ExcVal(cls, args))

    def truth(self, v):
        if isinstance(v, (bool, int, float, str, tuple)) or v is None:
            return bool(v)
        if isinstance(v, S):
            if v.t.sort == 'Bool':
                return self.cx.decide(v.t)
            return self.cx.decide(ne(v.t, ZERO))
        if isinstance(v, Opaque) and v.tag == 'set':
            return self.truth(v.items)
        if isinstance(v, (PList, STup)) and any(isinstance(s, Rep) and s.cond is not None for s in v.segs):
            # a filtered sequence: some element passes
            some = self.nonempty(v.segs)
            if not self.cx.decide(some):
                return False
            self.cx.assume(lt(ZERO, self.length(v)))
            return True
        if isinstance(v, (PList, STup, Iter)):
            return self.cx.decide(ne(self.length(v), ZERO))
        if isinstance(v, PDict):
            return self.cx.decide(ne(self.length(v), ZERO))
        if isinstance(v, Arr):
            sz = self.world.np.size(self, v)
            if self.cx.decide(eq(sz, ONE)):
                return self.truth(self.world.np.item(self, v))
            self.raise_(ValueError, 'truth value of an array')
        if isinstance(v, SStr):
            if any(isinstance(p, str) for p in v.parts):
                return True
            raise Unsupported('truth of a symbolic string')
        if isinstance(v, Obj):
            for m in ('__bool__', '__len__'):
                f, c = v.cls.lookup(m)
                if f is not None:
                    return self.truth(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, (Func, Bi, Bound, Cls, Opaque, ExcVal)):
            return True
        raise Unsupported('truth of %r' % (v,))

    def nonempty(self, segs):
        out = []
        for s in segs:
            if isinstance(s, One):
                return TRUE
            if isinstance(s, Rep) and s.cond is not None:
                k = tm.scratch()
                out.append(ex_(ZERO, s.n, k, s.cond(k)))
            else:
                out.append(lt(ZERO, self.seglen(s)))
        return or_(*out)

    def seglen(self, s):
        if isinstance(s, One):
            return ONE
        if isinstance(s, Rep):
            if s.cond is None:
                return s.n
            k = tm.scratch()
            return sum_(ZERO, s.n, k, ite(s.cond(k), ONE, ZERO))
        if isinstance(s, BSeg):
            return s.block.rank
        if isinstance(s, Many):
            k = tm.scratch()
            tot = ZERO
            with self.cx.scope([le(ZERO, k), lt(k, s.n)]):
                for x in s.fn(k):
                    tot = add(tot, self.seglen(x))
                g = self.telescope(k, tot)
            if g is not None:
                return sub(subst(g, {k: s.n}), subst(g, {k: ZERO}))
            return sum_(ZERO, s.n, k, tot)
        raise Unsupported('length of a %s' % type(s).__name__)

    def telescope(self, k, d):
        """g with g(k + 1) - g(k) == d(k)"""
        for m, c in tm.poly_of(d).items():
            if c == -1 and len(m) == 1 and m[0][1] == 1 and k in fv(m[0][0]):
                g = m[0][0]
                if self.cx.prove(eq(sub(subst(g, {k: add(k, ONE)}), g), d)):
                    return g
        return None

    def length(self, v):
        """Int term"""
        if isinstance(v, (tuple, str, list)):
            return num(len(v))
        if isinstance(v, (PList, STup, Iter)):
            return add(ZERO, *[self.seglen(s) for s in v.segs])
        if isinstance(v, PDict):
            return add(ZERO, *[ONE if isinstance(s, DOne) else s.n for s in v.segs])
        if isinstance(v, PRange):
            if v.step == 1:
                if self.cx.prove(le(v.lo, v.hi)):
                    return sub(v.hi, v.lo)
                return ite(le(v.lo, v.hi), sub(v.hi, v.lo), ZERO)
            raise Unsupported('range step')
        if isinstance(v, Arr):
            if not v.shape:
                self.raise_(TypeError, 'len() of unsized object')
            return dsize(v.shape[0]) if not isinstance(v.shape[0], Block) else self.block_dim0(v.shape[0])
        if isinstance(v, Obj):
            f, c = v.cls.lookup('__len__')
            if f is not None:
                return self.term_i(self.call(Bound(f, v), [], {}))
        if isinstance(v, S) or v is None or isinstance(v, (int, float)):
            self.raise_(TypeError, 'object has no len()')
        raise Unsupported('len of %r' % (v,))

    def block_dim0(self, b):
        return app('dim0', (b.term,), 'Int')

    def mkint(self, t):
        if t.op == 'const':
            return int(t.val)
        return S(t, 'i')

    def mkbool(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        return S(t, 'b')

    def term_i(self, v):
        """Int term of an integer value"""
        if isinstance(v, bool):
            return num(int(v))
        if isinstance(v, int):
            return num(v)
        if isinstance(v, S):
            if v.kind == 'f' and v.t.sort == 'Int':
                self.raise_(TypeError, 'a float where an integer is needed')
            if v.t.sort == 'Int':
                return v.t
            if v.t.sort == 'Bool':
                return ite(v.t, ONE, ZERO)
            raise Unsupported('integer expected: %r' % (v,))
        if isinstance(v, float):
            self.raise_(TypeError, 'a float where an integer is needed')
        if isinstance(v, Arr):
            return self.term_i(self.world.np.item(self, v))
        if isinstance(v, Poison):
            raise Unsupported('use of %s' % v.why)
        raise Unsupported('integer expected: %r' % (v,))

    def term(self, v):
        """(term, kind) of a scalar; infinities are returned as floats"""
        if isinstance(v, bool):
            return (TRUE if v else FALSE), 'b'
        if isinstance(v, int):
            return num(v), 'i'
        if isinstance(v, float):
            if v != v:
                return app('NaN', (), 'Real'), 'f'
            if v in (INF, -INF):
                return v, 'f'
            return num(v), 'f'
        if isinstance(v, Fraction):
            return num(v, 'Real'), 'f'
        if isinstance(v, S):
            return v.t, v.kind
        if isinstance(v, Arr) and v.ndim == 0:
            return v.at(()), v.kind
        if isinstance(v, Poison):
            raise Unsupported('use of %s' % v.why)
        raise Unsupported('scalar expected: %r' % (v,))

    def numterm(self, v):
        t, k = self.term(v)
        if isinstance(t, float):
            raise Unsupported('arithmetic on infinity')
        if t.sort == 'Bool':
            t = ite(t, ONE, ZERO)
        return t

    def wrap(self, t, kind=None):
        """value of a term"""
        if t.sort == 'Bool':
            return self.mkbool(t)
        if t.op == 'const':
            if (kind or ('i' if t.sort == 'Int' else 'f')) == 'i' and t.val.denominator == 1:
                return int(t.val)
            f = float(t.val)
            if Fraction(f) == t.val:
                return f
        return S(t, kind)

    # ================================================================ scalar arithmetic
    def s_div(self, a, b):
        """a / b on terms"""
        if b.op == 'const' and b.val == 0:
            return app('npdiv', (a, b), 'Real')
        if b.op == 'const' or self.cx.prove(ne(b, ZERO), effort=1, timeout=800):
            return tm.div(a, b)
        return app('npdiv', (a, b), 'Real')

    def s_log(self, a):
        if a.op == 'const' and a.val > 0 or self.cx.prove(lt(ZERO, a), effort=1, timeout=800):
            if a.op == 'const' and a.val == 1:
                return num(0, 'Real')
            return tm.log(a)
        return app('nplog', (a,), 'Real')

    def s_sqrt(self, a):
        if a.op == 'const' and a.val >= 0:
            return tm.sqrt(a)
        r = self.perfect_square(a)
        if r is not None:
            if self.cx.prove(le(ZERO, r)):
                return r
            return ite(le(ZERO, r), r, neg(r))
        if self.cx.prove(le(ZERO, a), effort=1, timeout=800):
            return tm.sqrt(a)
        return app('npsqrt', (a,), 'Real')

    def perfect_square(self, a):
        if a.op not in ('poly',):
            return None
        try:
            p = poly_of(a)
            import sympy
            atoms = {}
            expr = 0
            for m, c in p.items():
                e = sympy.Rational(c.numerator, c.denominator)
                for x, k in m:
                    e = e * atoms.setdefault(x, sympy.Symbol('a%d' % x.id)) ** k
                expr += e
            if any(k < 0 for m in p for _, k in m):
                return None
            c, fs = sympy.factor_list(expr)
            if any(k % 2 for _, k in fs) or not fs:
                return None
            cr = sympy.sqrt(c)
            if not cr.is_rational:
                return None
            back = {s: x for x, s in atoms.items()}
            out = num(Fraction(int(cr.p), int(cr.q)))
            for f, k in fs:
                t = ZERO
                for mon, co in sympy.Poly(f, *back).terms():
                    mt = num(Fraction(int(co.p), int(co.q)))
                    for s, ee in zip(back, mon):
                        mt = mul(mt, tm.power(back[s], ee))
                    t = add(t, mt)
                out = mul(out, tm.power(t, k // 2))
            return out
        except Exception:
            return None

    def divmod_terms(self, x, m):
        """(q, r) with x = q*m + r and 0 <= r < m, for m > 0; found by matching or introduced"""
        if m is ONE:
            return x, ZERO
        if x.op == 'const' and m.op == 'const' and m.val > 0:
            return num(int(x.val // m.val)), num(int(x.val % m.val))
        pm = poly_of(m)
        px = poly_of(x)
        if m.op == 'const' and m.val > 0:
            # an integer-valued polynomial (such as r (r + 1) / 2) plus a constant
            q = {mono: c / m.val for mono, c in px.items() if mono}
            if any(c.denominator != 1 for c in q.values()):
                Q = from_poly(q, 'Int')
                c0 = px.get((), Fraction(0))
                if Q.sort == 'Int' and c0.denominator == 1:
                    return add(Q, num(int(c0 // m.val))), num(int(c0 % m.val))
        if len(pm) == 1:
            (mm, mc), = pm.items()
            q, r = {}, {}
            for mono, c in px.items():
                d = tm._mono_div(mono, mm) if mm else mono
                if d is not None and (c / mc).denominator == 1 and (mm or mono):
                    q[d] = q.get(d, 0) + c / mc
                else:
                    r[mono] = c
            Q, R = from_poly(q, 'Int'), from_poly(r, 'Int')
            if Q.sort == 'Int' and R.sort == 'Int' and \
                    self.cx.prove(and_(le(ZERO, R), lt(R, m)), effort=0, timeout=500):
                return Q, R
        else:
            # m has several monomials: try a division by the leading one
            lm = max(pm, key=tm._lex)
            q = {}
            rest = dict(px)
            for mono, c in px.items():
                d = tm._mono_div(mono, lm)
                if d is not None:
                    q[d] = q.get(d, 0) + c / pm[lm]
            Q = from_poly(q, 'Int')
            if Q.sort == 'Int':
                R = sub(x, mul(Q, m))
                if R.sort == 'Int' and self.cx.prove(and_(le(ZERO, R), lt(R, m)), effort=0, timeout=500):
                    return Q, R
        if self.cx.prove(and_(le(ZERO, x), lt(x, m)), effort=0, timeout=500):
            return ZERO, x
        return app('idiv', (x, m), 'Int'), app('imod', (x, m), 'Int')

    def s_pow(self, a, b):
        if b.op == 'const' and b.val.denominator == 1:
            n = int(b.val)
            if n >= 0:
                return tm.power(a, n)
            if self.cx.prove(ne(a, ZERO)):
                return tm.power(a, n)
        if b.op == 'const' and b.val == Fraction(1, 2):
            return self.s_sqrt(a)
        if b.op == 'const' and b.val == Fraction(-1, 2):
            return self.s_div(ONE, self.s_sqrt(a))
        if self.cx.prove(lt(ZERO, a)):
            return tm.exp(mul(b, tm.log(a)))
        return app('pow', (a, b), 'Real')

    def s_binop(self, op, a, b, ka, kb, python=True):
        """terms and kinds -> (term, kind)"""
        if op in ('|', '&', '^') and ka == kb == 'b':
            if op == '|':
                return or_(a, b), 'b'
            if op == '&':
                return and_(a, b), 'b'
            return not_(tm.iff(a, b)), 'b'
        if not python and ka == kb == 'b':
            if op == '+':
                return or_(a, b), 'b'
            if op == '*':
                return and_(a, b), 'b'
            if op == '-':
                self.raise_(TypeError, 'numpy boolean subtract')
        a = ite(a, ONE, ZERO) if a.sort == 'Bool' else a
        b = ite(b, ONE, ZERO) if b.sort == 'Bool' else b
        kind = 'f' if 'f' in (ka, kb) else 'i'
        if op == '+':
            return add(a, b), kind
        if op == '-':
            return sub(a, b), kind
        if op == '*':
            return mul(a, b), kind
        if op == '/':
            if python and b.op == 'const' and b.val == 0:
                self.raise_(ZeroDivisionError)
            return self.s_div(a, b), 'f'
        if op in ('//', '%'):
            if python and self.cx.decide(eq(b, ZERO)):
                self.raise_(ZeroDivisionError)
            if self.cx.prove(lt(ZERO, b)) and kind == 'i':
                q, r = self.divmod_terms(a, b)
                return (q if op == '//' else r), kind
            return app('py' + op, (a, b), 'Int' if kind == 'i' else 'Real'), kind
        if op == '**':
            r = self.s_pow(a, b)
            return r, ('f' if r.sort == 'Real' else kind)
        raise Unsupported('operator %s' % op)

    def s_compare(self, op, a, b):
        """comparison of scalar terms (or infinities) as a Bool term"""
        fa, fb = isinstance(a, float), isinstance(b, float)
        if fa or fb:
            x = a if fa else 0.0
            y = b if fb else 0.0
            return tm.boolc({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y,
                             '>=': x >= y}[op])
        if a.sort == 'Bool' and b.sort == 'Bool' and op in ('==', '!='):
            r = tm.iff(a, b)
            return r if op == '==' else not_(r)
        a = ite(a, ONE, ZERO) if a.sort == 'Bool' else a
        b = ite(b, ONE, ZERO) if b.sort == 'Bool' else b
        if a.sort.startswith('U') or b.sort.startswith('U'):
            if op in ('==', '!='):
                r = eq(a, b) if a.sort == b.sort else FALSE
                return r if op == '==' else not_(r)
            raise Unsupported('ordering of abstract values')
        return {'==': eq, '!=': ne, '<': lt, '<=': le, '>': gt, '>=': ge}[op](a, b)

    # ================================================================ operators on values
    def as_set(self, v):
        return Opaque('set', items=PList(self.cx, v.segs)) if isinstance(v, Iter) and v.keys else v

    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('use of %s' % (a if isinstance(a, Poison) else b).why)
        a, b = self.as_set(a), self.as_set(b)
        prim = (int, float, bool, str)
        for x, y, pre in ((a, b, '__'), (b, a, '__r')):
            if isinstance(x, Obj):
                names = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '@': 'matmul', '%': 'mod',
                         '//': 'floordiv', '**': 'pow', '|': 'or', '&': 'and'}
                f, c = x.cls.lookup(pre + names[op] + '__')
                if f is not None:
                    return self.call(Bound(f, x), [y], {})
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.world.opaque_binop(self, op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.world.np.binop(self, op, a, b)
        if isinstance(a, prim) and isinstance(b, prim):
            try:
                if isinstance(a, str) and op == '%':
                    return a % b
                if op in ('+', '-') and (isinstance(a, float) or isinstance(b, float)) and \
                        isinstance(a, (int, float)) and isinstance(b, (int, float)) and \
                        abs(a) < 1e300 and abs(b) < 1e300:
                    # arithmetic is exact: literals that meet in the source are not rounded either
                    x, y = Fraction(a), Fraction(b)
                    x = x + y if op == '+' else x - y
                    if x != Fraction(a + b if op == '+' else a - b):
                        return S(num(x, 'Real'), 'f')
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b,
                        '//': lambda: a // b, '%': lambda: a % b, '**': lambda: a ** b,
                        '|': lambda: a | b, '&': lambda: a & b, '^': lambda: a ^ b,
                        '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
            except (TypeError, ZeroDivisionError, ValueError, OverflowError) as e:
                self.raise_(type(e), str(e))
        if op == '+' and isinstance(a, (tuple, STup)) and isinstance(b, (tuple, STup)):
            return self.mktup(self.segs_of(a) + self.segs_of(b))
        if op == '+' and isinstance(a, PList) and isinstance(b, PList):
            return PList(self.cx, a.segs + b.segs)
        if op == '*' and isinstance(a, (tuple, PList)) and isinstance(b, (int, S)):
            return self.seq_repeat(a, b)
        if op == '*' and isinstance(b, (tuple, PList)) and isinstance(a, (int, S)):
            return self.seq_repeat(b, a)
        if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            if op == '+' and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return self.mkstr([a, b])
            if op == '%' and isinstance(a, str):
                return self.percent(a, b)
            if op == '%':
                return self.mkstr([a, ('o', 'percent')])
            if op == '*':
                raise Unsupported('string repetition')
            self.raise_(TypeError, 'bad operand types')
        if a is None or b is None:
            self.raise_(TypeError, 'bad operand types')
        if isinstance(a, (S, int, float)) and isinstance(b, (S, int, float)):
            ta, ka = self.term(a)
            tb, kb = self.term(b)
            if isinstance(ta, float) or isinstance(tb, float):
                # infinity combined with a finite symbolic number
                if op in ('+', '-'):
                    x = ta if isinstance(ta, float) else 0.0
                    y = tb if isinstance(tb, float) else 0.0
                    return x + y if op == '+' else x - y
                raise Unsupported('arithmetic on infinity')
            t, k = self.s_binop(op, ta, tb, ka, kb)
            return self.wrap(t, k)
        if isinstance(a, (Func, Cls, PDict, tuple, PList, Obj, SymVal, ExcVal)) or \
                isinstance(b, (Func, Cls, PDict, tuple, PList, Obj, SymVal, ExcVal)):
            self.raise_(TypeError, 'unsupported operand types for %s' % op)
        raise Unsupported('%r %s %r' % (a, op, b))

    def seq_repeat(self, a, n):
        t = self.term_i(n)
        segs = self.segs_of(a)
        if t.op == 'const':
            out = segs * max(0, int(t.val))
        elif len(segs) == 1 and isinstance(segs[0], One):
            v = segs[0].v
            out = (Rep(t, lambda k: v),)
        else:
            raise Unsupported('repetition')
        return PList(self.cx, out) if isinstance(a, PList) else self.mktup(out)

    def mkstr(self, parts):
        s = SStr([p for p in parts])
        if not s.parts:
            return ''
        if len(s.parts) == 1 and isinstance(s.parts[0], str):
            return s.parts[0]
        return s

    def str_eq(self, a, b):
        """Bool term"""
        if isinstance(a, str) and isinstance(b, str):
            return tm.boolc(a == b)
        pa = a.parts if isinstance(a, SStr) else (a,)
        pb = b.parts if isinstance(b, SStr) else (b,)
        ka, kb = self.keyterm(a), self.keyterm(b)
        if ka is not None and kb is not None:
            return eq(ka, kb)
        if len(pa) == len(pb):
            cs = []
            for x, y in zip(pa, pb):
                if x == y:
                    continue
                if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and len(x) == len(y):
                    if x[0] in ('t', 'i'):
                        cs.append(eq(x[1], y[1]))
                        continue
                    if x[0] == 'bj' and x[1] == y[1] and x[4] == y[4] and x[2] == y[2]:
                        cs.append(eq(x[3], y[3]))
                        continue
                if isinstance(x, str) and isinstance(y, str):
                    return FALSE
                return app('streq', (tm.strc(repr(pa)), tm.strc(repr(pb))), 'Bool')
            return and_(*cs)
        return app('streq', (tm.strc(repr(pa)), tm.strc(repr(pb))), 'Bool')

    def keyterm(self, s):
        if isinstance(s, str):
            return tm.strc(s)
        if isinstance(s, SStr) and len(s.parts) == 1 and isinstance(s.parts[0], tuple) and \
                s.parts[0][0] == 't':
            return s.parts[0][1]
        if isinstance(s, int) and not isinstance(s, bool):
            return num(s)
        if isinstance(s, S) and s.kind == 'i':
            return s.t
        return None

    def segs_of(self, v):
        if isinstance(v, tuple):
            return tuple(One(x) for x in v)
        if isinstance(v, (PList, STup, Iter)):
            return tuple(v.segs)
        raise Unsupported('segments of %r' % (v,))

    def mktup(self, segs):
        segs = self.norm_segs(segs)
        if all(isinstance(s, One) for s in segs):
            return tuple(s.v for s in segs)
        return STup(segs)

    def norm_segs(self, segs):
        out = []
        for s in segs:
            if isinstance(s, Rep) and s.cond is None and s.n.op == 'const' and s.n.val <= 8:
                for i in range(max(0, int(s.n.val))):
                    out.append(One(s.fn(num(i))))
            elif isinstance(s, Many) and s.n.op == 'const' and s.n.val <= 8:
                for i in range(max(0, int(s.n.val))):
                    out.extend(s.fn(num(i)))
            else:
                out.append(s)
        return tuple(out)

    def unop(self, op, a):
        if isinstance(a, Opaque):
            return self.world.opaque_unop(self, op, a)
        if isinstance(a, Arr):
            return self.world.np.unop(self, op, a)
        if op == 'not':
            if isinstance(a, S) and a.t.sort == 'Bool':
                return self.mkbool(not_(a.t))
            return not self.truth(a)
        if isinstance(a, (int, float)):
            return {'-': lambda: -a, '+': lambda: +a, '~': lambda: ~a}[op]()
        if isinstance(a, S):
            if op == '~':
                if a.t.sort == 'Bool':
                    return self.mkbool(not_(a.t))
                return S(sub(num(-1), a.t), 'i')
            t = self.numterm(a)
            return self.wrap(neg(t) if op == '-' else t, 'f' if a.kind == 'f' else 'i')
        if a is None or isinstance(a, (str, tuple)):
            self.raise_(TypeError, 'bad operand for unary ' + op)
        raise Unsupported('unary %s on %r' % (op, a))

    def value_eq(self, a, b):
        """Python == as a Bool term (deep)"""
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('use of %s' % (a if isinstance(a, Poison) else b).why)
        if a is b and not isinstance(a, float):
            return TRUE
        if isinstance(a, Obj):
            f, c = a.cls.lookup('__eq__')
            if f is not None:
                r = self.call(Bound(f, a), [b], {})
                return TRUE if r is True else FALSE if r is False else self.term(r)[0]
            return tm.boolc(a is b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.world.opaque_eq(self, a, b)
        if isinstance(a, (int, float, S)) and isinstance(b, (int, float, S)):
            return self.s_compare('==', self.term(a)[0], self.term(b)[0])
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.str_eq(a, b)
        if isinstance(a, (tuple, STup)) and isinstance(b, (tuple, STup)) or \
                isinstance(a, PList) and isinstance(b, PList):
            return self.seq_eq(self.segs_of(a), self.segs_of(b))
        if isinstance(a, PDict) and isinstance(b, PDict):
            return self.dict_eq(a, b)
        if isinstance(a, SymVal) and isinstance(b, SymVal):
            return eq(a.t, b.t)
        return FALSE

    def seq_eq(self, sa, sb):
        sa, sb = self.norm_segs(sa), self.norm_segs(sb)
        if all(isinstance(s, One) for s in sa) and all(isinstance(s, One) for s in sb):
            if len(sa) != len(sb):
                return FALSE
            return and_(*[self.value_eq(x.v, y.v) for x, y in zip(sa, sb)])
        sh = self.world.shape_term(self, sa), self.world.shape_term(self, sb)
        if sh[0] is not None and sh[1] is not None:
            a, b = sh
            if a is b:
                return TRUE
            # align the common prefix / suffix
            if len(sa) == len(sb) and [type(x) for x in sa] == [type(x) for x in sb]:
                cs = []
                for x, y in zip(sa, sb):
                    if isinstance(x, One):
                        cs.append(self.value_eq(x.v, y.v))
                    else:
                        cs.append(eq(x.block.term, y.block.term))
                if sum(isinstance(x, BSeg) for x in sa) <= 1:
                    return and_(*cs)
                # equal dimensions at either end leave the comparison of the others
                rest = [(x, c) for x, c in zip(sa, cs)]
                while rest and rest[0][1] is TRUE:
                    rest.pop(0)
                while rest and rest[-1][1] is TRUE:
                    rest.pop()
                if sum(isinstance(x, BSeg) for x, _ in rest) <= 1:
                    return and_(*[c for _, c in rest])
            la, lb = (add(ZERO, *[ONE if isinstance(s, One) else s.block.rank for s in x]) for x in (sa, sb))
            if la is not lb:
                if self.cx.prove(ne(la, lb), effort=0):
                    return FALSE
                return and_(eq(la, lb), eq(a, b))
            return eq(a, b)
        if len(sa) == len(sb):
            cs = []
            for x, y in zip(sa, sb):
                if isinstance(x, One) and isinstance(y, One):
                    cs.append(self.value_eq(x.v, y.v))
                elif isinstance(x, Rep) and isinstance(y, Rep) and x.cond is None and y.cond is None:
                    k = fresh('e', 'Int')
                    with self.cx.scope([le(ZERO, k), lt(k, x.n), lt(k, y.n)]):
                        e = self.value_eq(x.fn(k), y.fn(k))
                    cs.append(and_(eq(x.n, y.n), all_(ZERO, x.n, k, e)))
                else:
                    raise Unsupported('comparison of sequences %s %s' % (sa, sb))
            return and_(*cs)
        la, lb = add(ZERO, *[self.seglen(s) for s in sa]), add(ZERO, *[self.seglen(s) for s in sb])
        if self.cx.prove(ne(la, lb)):
            return FALSE
        if not sa or not sb:
            return eq(la, lb)
        raise Unsupported('comparison of sequences %s %s' % (sa, sb))

    def dict_eq(self, a, b):
        if len(a.segs) == len(b.segs) and all(isinstance(s, DOne) for s in a.segs + b.segs):
            cs = []
            for s in a.segs:
                v, present = self.dict_find(b, s.k)
                if present is FALSE:
                    return FALSE
                if present is not TRUE:
                    raise Unsupported('dict comparison')
                cs.append(self.value_eq(s.v, v))
            return and_(*cs)
        if all(isinstance(s, DOne) for s in a.segs + b.segs):
            return FALSE
        if len(a.segs) == len(b.segs) == 1 and isinstance(a.segs[0], DRep) and isinstance(b.segs[0], DRep):
            x, y = a.segs[0], b.segs[0]
            # sufficient and, given equal key sequences, necessary
            k = fresh('e', 'Int')
            with self.cx.scope([le(ZERO, k), lt(k, x.n), lt(k, y.n)]):
                ke = self.value_eq(x.key(k), y.key(k))
                ve = self.value_eq(x.val(k), y.val(k))
            same_keys = and_(eq(x.n, y.n), all_(ZERO, x.n, k, ke))
            return self.world.dict_eq_general(self, a, b, same_keys, all_(ZERO, x.n, k, ve))
        raise Unsupported('dict comparison')

    def compare(self, op, a, b):
        if op in ('is', 'is not'):
            r = self.is_(a, b)
            return self.mkbool(r if op == 'is' else not_(r))
        if op in ('in', 'not in'):
            r = self.contains(a, b)
            return self.mkbool(r if op == 'in' else not_(r))
        a, b = self.as_set(a), self.as_set(b)
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unsupported('use of %s' % x.why)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            r = self.world.opaque_compare(self, op, a, b)
            if r is not None:
                return r
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.world.np.compare(self, op, a, b)
        if op in ('==', '!='):
            if isinstance(a, Obj) and op == '!=':
                f, c = a.cls.lookup('__ne__')
                if f is not None:
                    return self.call(Bound(f, a), [b], {})
            if not isinstance(a, Obj) and isinstance(b, Obj):
                a, b = b, a
            r = self.value_eq(a, b)
            return self.mkbool(r if op == '==' else not_(r))
        if isinstance(a, (int, float, S)) and isinstance(b, (int, float, S)):
            return self.mkbool(self.s_compare(op, self.term(a)[0], self.term(b)[0]))
        if isinstance(a, str) and isinstance(b, str) or isinstance(a, tuple) and isinstance(b, tuple) and \
                all(isinstance(x, (int, float)) for x in a + b):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if a is None or b is None:
            self.raise_(TypeError, 'ordering with None')
        raise Unsupported('%r %s %r' % (a, op, b))

    def is_(self, a, b):
        if isinstance(a, Opaque) and a.tag == 'symtype' or isinstance(b, Opaque) and b.tag == 'symtype':
            return self.world.opaque_eq(self, a, b)
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, Opaque) and a.tag == 'optional' or isinstance(b, Opaque) and b.tag == 'optional':
                return self.world.opaque_eq(self, a, b)
            if isinstance(a, S) and isinstance(b, bool) and a.t.sort == 'Bool' and not a.np:
                return a.t if b else not_(a.t)
            return tm.boolc(a is b)
        return tm.boolc(a is b)

    def contains(self, x, c):
        if isinstance(c, PDict):
            v, present = self.dict_find(c, x)
            return present
        if isinstance(c, Opaque):
            return self.world.opaque_contains(self, x, c)
        if isinstance(x, Opaque) and x.tag == 'ptype':
            return TRUE
        if isinstance(c, (tuple, PList, STup, Iter)):
            cs = []
            for s in self.segs_of(c):
                if isinstance(s, One):
                    cs.append(self.value_eq(s.v, x))
                elif isinstance(s, Rep):
                    k = fresh('e', 'Int')
                    with self.cx.scope([le(ZERO, k), lt(k, s.n)]):
                        e = self.value_eq(s.fn(k), x)
                        if s.cond is not None:
                            e = and_(s.cond(k), e)
                    cs.append(ex_(ZERO, s.n, k, e))
                else:
                    raise Unsupported('membership')
            return or_(*cs) if cs else FALSE
        if isinstance(c, str) and isinstance(x, str):
            return tm.boolc(x in c)
        if isinstance(c, Obj):
            f, k = c.cls.lookup('__contains__')
            if f is not None:
                r = self.call(Bound(f, c), [x], {})
                return TRUE if r is True else FALSE if r is False else self.term(r)[0]
            f, k = c.cls.lookup('keys')
        if isinstance(c, PRange):
            t = self.term_i(x)
            return and_(le(c.lo, t), lt(t, c.hi))
        if isinstance(c, Arr):
            r = self.world.np.call(self, 'any', [self.world.np.compare(self, '==', c, x)], {})
            return self.term(r)[0]
        if isinstance(c, SymVal):
            return app('haskey', (c.t, self.need_key(x)), 'Bool')
        raise Unsupported('%r in %r' % (x, c))

    def need_key(self, x):
        k = self.keyterm(x)
        if k is None:
            raise Unsupported('dictionary key %r' % (x,))
        return k

    # ================================================================ dictionaries
    def dict_find(self, d, key):
        """(value, presence Bool term)"""
        if isinstance(key, (PList, PDict, Arr)):
            self.raise_(TypeError, 'unhashable type')
        if isinstance(key, Opaque) and key.tag == 'ptype':
            # the table of registered classes: the member's class is assumed registered
            return Opaque('pclass', p=key.p, block=key.block), TRUE
        cond_val = []
        for s in d.segs:
            if isinstance(s, DOne):
                if isinstance(key, (str, SStr)) and isinstance(s.k, (str, SStr)):
                    e = self.str_eq(s.k, key)
                else:
                    e = self.value_eq(s.k, key)
                if e is TRUE:
                    return s.v, TRUE
                if e is not FALSE:
                    if self.cx.prove(e):
                        return s.v, TRUE
                    if self.cx.prove(not_(e)):
                        continue
                    cond_val.append((e, s.v))
            elif isinstance(s, DRep):
                r = self.rep_find(s, key)
                if r[1] is TRUE:
                    return r
                if r[1] is not FALSE:
                    cond_val.append((r[1], r[0]))
            elif isinstance(s, Hole):
                continue
        if not cond_val:
            return None, FALSE
        if len(cond_val) == 1:
            return cond_val[0][1], cond_val[0][0]
        present = or_(*[c for c, _ in cond_val])
        try:
            v = cond_val[-1][1]
            for c, w in reversed(cond_val[:-1]):
                v = self.vite(c, w, v)
        except Unsupported:
            v = Poison('ambiguous dictionary entry')
        return v, present

    def rep_find(self, s, key):
        kt = self.keyterm(key)
        if kt is None and not isinstance(key, (type(None), tuple, STup)):
            raise Unsupported('look-up of a key of this kind')
        if kt is None:
            return None, FALSE
        kk = tm.scratch()
        kb = self.keyterm(s.key(kk))
        if kb is None:
            raise Unsupported('symbolic dictionary keys')
        if (kt.sort == 'Int') != (kb.sort == 'Int'):
            return None, FALSE
        # syntactic match first
        i = self.match_index(kb, kk, kt)
        if i is not None:
            inside = and_(le(ZERO, i), lt(i, s.n))
            if self.cx.prove(inside):
                return s.val(i), TRUE
        e = ex_(ZERO, s.n, kk, eq(kb, kt))
        if e is FALSE or self.cx.prove(not_(e)):
            return None, FALSE
        # the index at which the key is found
        j = app('keyidx', (tm.lam_(s.n, kk, kb if kb.sort == 'Int' else app('asint', (kb,), 'Int')), kt), 'Int')
        if self.cx.prove(e):
            self.cx.assume(and_(le(ZERO, j), lt(j, s.n), eq(subst(kb, {kk: j}), kt)))
            return s.val(j), TRUE
        return s.val(j), e

    def match_index(self, pat, k, t):
        """index i with pat[k := i] syntactically equal to t"""
        if pat.sort == 'Int' and t.sort == 'Int':
            p = poly_of(pat)
            c = p.get(((k, 1),))
            rest = from_poly({m: y for m, y in p.items() if m != ((k, 1),)}, 'Int')
            if c in (1, -1) and k not in fv(rest):
                return mul(num(int(c)), sub(t, rest))
        if pat.op == 'app' and t.op == 'app' and pat.val == t.val and len(pat.args) == len(t.args):
            for a, b in zip(pat.args, t.args):
                if k in fv(a):
                    p = poly_of(a)
                    c = p.get(((k, 1),))
                    if c == 1:
                        rest = from_poly({m: y for m, y in p.items() if m != ((k, 1),)}, 'Int')
                        i = sub(b, rest)
                        if subst(pat, {k: i}) is t:
                            return i
        if pat.op == 'ite':
            for b in pat.args[1:]:
                i = self.match_index(b, k, t)
                if i is not None and self.cx.prove(eq(subst(pat, {k: i}), t)):
                    return i
        return None

    def dict_get(self, d, key):
        v, present = self.dict_find(d, key)
        if present is TRUE or present is not FALSE and self.cx.decide(present):
            if present is not TRUE:
                v, p2 = self.dict_find(d, key)
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        self.raise_(KeyError, key)

    def dict_set(self, d, key, val):
        if isinstance(key, (PList, PDict, Arr)):
            self.raise_(TypeError, 'unhashable type')
        v, present = self.dict_find(d, key)
        if present is not FALSE and self.cx.decide(present):
            out = []
            done = False
            for s in d.segs:
                if not done and isinstance(s, DOne):
                    e = self.value_eq(s.k, key) if not isinstance(key, (str, SStr)) else \
                        (self.str_eq(s.k, key) if isinstance(s.k, (str, SStr)) else FALSE)
                    if e is TRUE or e is not FALSE and self.cx.prove(e):
                        out.append(DOne(s.k, val))
                        done = True
                        continue
                elif not done and isinstance(s, DRep):
                    kk = tm.scratch()
                    kb = self.keyterm(s.key(kk))
                    kt = self.keyterm(key)
                    i = self.match_index(kb, kk, kt) if kt is not None else None
                    if i is None and kt is not None and self.cx.prove(ex_(ZERO, s.n, kk, eq(kb, kt))):
                        i = app('keyidx', (tm.lam_(s.n, kk, kb if kb.sort == 'Int' else app('asint', (kb,), 'Int')), kt), 'Int')
                        self.cx.assume(and_(le(ZERO, i), lt(i, s.n), eq(subst(kb, {kk: i}), kt)))
                    if i is not None and self.cx.prove(and_(le(ZERO, i), lt(i, s.n))):
                        old = s.val
                        out.append(DRep(s.n, s.key, lambda k, old=old, i=i: self.vite(eq(k, i), val, old(k))))
                        done = True
                        continue
                out.append(s)
            if not done:
                raise Unsupported('dictionary update at an undetermined entry')
            d.segs = tuple(out)
            return
        d.segs = d.segs + (DOne(key, val),)

    def dict_del(self, d, key):
        v, present = self.dict_find(d, key)
        if present is FALSE or not self.cx.decide(present):
            self.raise_(KeyError, key)
        out = []
        done = False
        for s in d.segs:
            if not done and isinstance(s, DOne):
                e = self.value_eq(s.k, key) if not isinstance(s.k, (str, SStr)) else self.str_eq(s.k, key)
                if e is TRUE or e is not FALSE and self.cx.prove(e):
                    done = True
                    continue
            elif not done and isinstance(s, DRep):
                kk = tm.scratch()
                kb, kt = self.keyterm(s.key(kk)), self.keyterm(key)
                i = self.match_index(kb, kk, kt)
                if i is not None and self.cx.prove(and_(le(ZERO, i), lt(i, s.n))):
                    key0, val0 = s.key, s.val
                    out.append(DRep(sub(s.n, ONE),
                                    lambda k, i=i, f=key0: self.vshift(k, i, f),
                                    lambda k, i=i, f=val0: self.vshift(k, i, f)))
                    done = True
                    continue
            out.append(s)
        if not done:
            raise Unsupported('deletion of an undetermined entry')
        d.segs = tuple(out)
        return v

    def vshift(self, k, i, f):
        if self.cx.prove(lt(k, i)):
            return f(k)
        if self.cx.prove(le(i, k)):
            return f(add(k, ONE))
        return f(ite(lt(k, i), k, add(k, ONE)))

    # ================================================================ value-level ite and instantiation
    def vite(self, c, a, b):
        if c is TRUE or a is b:
            return a
        if c is FALSE:
            return b
        if isinstance(a, Poison) or isinstance(b, Poison):
            return Poison('value known on one path only')
        num_ = (int, float, S)
        if isinstance(a, num_) and isinstance(b, num_):
            ta, ka = self.term(a)
            tb, kb = self.term(b)
            if isinstance(ta, float) or isinstance(tb, float):
                if ta == tb:
                    return a
                return Poison('infinite on one path')
            if ta.sort != tb.sort and 'Bool' in (ta.sort, tb.sort):
                return Poison('mixed kinds')
            return self.wrap(ite(c, ta, tb), ka if ka == kb else 'f')
        if isinstance(a, SymVal) and isinstance(b, SymVal):
            return SymVal(ite(c, a.t, b.t))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and a == b:
                return a
            ka, kb = self.keyterm(a), self.keyterm(b)
            if ka is not None and kb is not None and ka.sort == kb.sort:
                return SStr((('t', ite(c, ka, kb)),))
            return Poison('strings')
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape) and \
                all(x is y or x == y for x, y in zip(a.shape, b.shape)):
            fa, fb = a.snap(), b.snap()
            if a.kind in 'OS' or b.kind in 'OS':
                return Poison('object arrays')
            kind = a.kind if a.kind == b.kind else 'f'
            return Arr(a.shape, Cell(self.cx, lambda idx: self.ite_eval(c, fa, fb, idx), kind))
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            r = self.world.opaque_ite(self, c, a, b)
            if r is not None:
                return r
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.vite(c, x, y) for x, y in zip(a, b))
        return Poison('value depends on the path')

    def ite_eval(self, c, fa, fb, idx):
        with self.cx.scope([c]):
            x = fa(idx)
        with self.cx.scope([not_(c)]):
            y = fb(idx)
        return ite(c, x, y)

    def inst(self, v, k, j, kfacts):
        """the value v, computed in iteration k under kfacts, for iteration j"""
        if k is j:
            return v
        if isinstance(v, (int, float, str, bool)) or v is None:
            return v
        mp = {k: j}
        if isinstance(v, S):
            return self.wrap(subst(v.t, mp), v.kind)
        if isinstance(v, SymVal):
            return SymVal(subst(v.t, mp))
        if isinstance(v, SStr):
            return self.mkstr([self.inst_part(p, mp) for p in v.parts])
        if isinstance(v, tuple):
            return tuple(self.inst(x, k, j, kfacts) for x in v)
        if isinstance(v, Arr):
            shape = tuple(Block(subst(d.term, mp)) if isinstance(d, Block) else subst(d, mp) for d in v.shape)
            f = v.snap()
            alg = v.alg
            content = self.inst_content(f, k, j, kfacts)
            r = Arr(shape, Cell(self.cx, content, v.kind, alias_of=v.cell))
            if v.concat is not None:
                r.concat = [self.inst_cseg(s, k, j, kfacts) for s in v.concat]
            return r
        if isinstance(v, STup):
            return self.mktup([self.inst_seg(s, k, j, kfacts) for s in v.segs])
        if isinstance(v, Iter):
            return Iter([self.inst_seg(s, k, j, kfacts) for s in v.segs])
        if isinstance(v, PList):
            return PList(self.cx, [self.inst_seg(s, k, j, kfacts) for s in v.segs])
        if isinstance(v, PDict):
            return PDict(self.cx, [self.inst_dseg(s, k, j, kfacts) for s in v.segs], v.ordered)
        if isinstance(v, PRange):
            return PRange(subst(v.lo, mp), subst(v.hi, mp), v.step)
        if isinstance(v, Slice):
            return Slice(*[self.inst(x, k, j, kfacts) for x in (v.lo, v.hi, v.step)])
        if isinstance(v, ItemProd):
            return ItemProd([self.inst_seg(s, k, j, kfacts) for s in v.segs])
        if isinstance(v, Opaque):
            return self.world.opaque_inst(self, v, k, j, kfacts)
        if isinstance(v, (Func, Bi, Cls, Mod, Bound, ExcVal, type)):
            return v
        if isinstance(v, Obj):
            o = Obj(self.cx, v.cls)
            o.attrs = {n: (self.inst(x, k, j, kfacts)) for n, x in v.attrs.items()}
            return o
        if isinstance(v, Poison):
            return v
        raise Unsupported('instantiation of %r' % (v,))

    def inst_part(self, p, mp):
        if isinstance(p, tuple):
            return tuple(subst(x, mp) if isinstance(x, T) else Block(subst(x.term, mp))
                         if isinstance(x, Block) else x for x in p)
        return p

    def inst_content(self, f, k, j, kfacts):
        def content(idx):
            if j.op == 'var':
                back = {j: k}
                idx2 = tuple(subst(i, back) for i in idx)
                fk = list(kfacts) + [subst(g, back) for g in self.cx.facts if j in fv(g)]
            else:
                idx2 = idx
                fk = list(kfacts)
            with self.cx.scope(fk + [eq(k, j)]):
                r = f(idx2)
            if isinstance(r, T):
                return subst(r, {k: j})
            return self.inst(r, k, j, kfacts)
        return content

    def inst_seg(self, s, k, j, kfacts):
        mp = {k: j}
        if isinstance(s, One):
            return One(self.inst(s.v, k, j, kfacts))
        if isinstance(s, Rep):
            return Rep(subst(s.n, mp), lambda i: self.inst_fn(s.fn, i, k, j, kfacts),
                       None if s.cond is None else (lambda i: subst(s.cond(i), mp)))
        if isinstance(s, BSeg):
            return BSeg(Block(subst(s.block.term, mp)), None if s.lin is None else subst(s.lin, mp), s.fn, s.tag)
        if isinstance(s, Many):
            return Many(subst(s.n, mp), lambda i: [self.inst_seg(x, k, j, kfacts) for x in s.fn(i)])
        if isinstance(s, Hole):
            return s
        raise Unsupported('segment')

    def inst_fn(self, fn, i, k, j, kfacts):
        with self.cx.scope(list(kfacts) + [eq(k, j)]):
            v = fn(i)
        return self.inst(v, k, j, kfacts)

    def inst_dseg(self, s, k, j, kfacts):
        mp = {k: j}
        if isinstance(s, DOne):
            return DOne(self.inst(s.k, k, j, kfacts), self.inst(s.v, k, j, kfacts))
        if isinstance(s, DRep):
            return DRep(subst(s.n, mp), lambda i: self.inst_fn(s.key, i, k, j, kfacts),
                        lambda i: self.inst_fn(s.val, i, k, j, kfacts))
        return s

    def inst_cseg(self, s, k, j, kfacts):
        mp = {k: j}
        if s[0] == 'one':
            return ('one', subst(s[1], mp), self.inst_content(s[2], k, j, kfacts))
        _, n, ln, el = s
        return ('rep', subst(n, mp), lambda i: subst(ln(i), mp),
                lambda i, x: subst(el(i, x), mp))

    # ================================================================ iteration
    def iter_segs(self, v):
        if isinstance(v, (tuple, PList, STup, Iter)):
            return list(self.segs_of(v))
        if isinstance(v, PRange):
            if v.step == 1:
                if v.lo.op == 'const' and v.hi.op == 'const':
                    return [One(i) for i in range(int(v.lo.val), int(v.hi.val))]
                n = self.length(v)
                return [Rep(n, lambda k: self.mkint(add(k, v.lo)))]
            if v.lo.op == v.hi.op == 'const':
                return [One(i) for i in range(int(v.lo.val), int(v.hi.val), v.step)]
            if v.step == -1:
                if not self.cx.prove(le(v.hi, v.lo)):
                    raise Unsupported('descending range')
                return [Rep(sub(v.lo, v.hi), lambda k: self.mkint(sub(v.lo, k)))]
            raise Unsupported('range with a step')
        if isinstance(v, PDict):
            return [One(s.k) if isinstance(s, DOne) else s if isinstance(s, Hole) else Rep(s.n, s.key)
                    for s in v.segs]
        if isinstance(v, ItemProd):
            return list(v.segs)
        if isinstance(v, Arr):
            if v.ndim == 0:
                self.raise_(TypeError, 'iteration over a 0-d array')
            n = self.length(v)
            if n.op == 'const':
                return [One(self.getitem(v, i)) for i in range(int(n.val))]
            return [Rep(n, lambda k: self.getitem(v, S(k)))]
        if isinstance(v, str):
            return [One(c) for c in v]
        if isinstance(v, Obj):
            f, c = v.cls.lookup('__iter__')
            if f is not None:
                return self.iter_segs(self.call(Bound(f, v), [], {}))
            f, c = v.cls.lookup('__getitem__')
        if isinstance(v, Opaque):
            return self.world.opaque_iter(self, v)
        if v is None or isinstance(v, (int, float, S, Func, Bi)):
            self.raise_(TypeError, 'object is not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def for_each(self, v, run):
        """run(element) for each element, by induction over symbolic segments.  Break propagates."""
        self.for_segs(self.iter_segs(v), run)

    def for_segs(self, segs, run):
        for s in segs:
            if isinstance(s, One):
                try:
                    run(s.v)
                except Continue:
                    pass
            elif isinstance(s, Rep):
                if s.cond is None:
                    if s.n.op == 'const' and s.n.val <= 8:
                        for i in range(int(s.n.val)):
                            try:
                                run(s.fn(num(i)))
                            except Continue:
                                pass
                    else:
                        self.sym_loop(s.n, s.fn, run)
                else:
                    def guarded(v, run=run):
                        c, x = v
                        if self.cx.decide(c):
                            run(x)
                    self.sym_loop(s.n, lambda k, s=s: (s.cond(k), s.fn(k)), guarded)
            elif isinstance(s, Many):
                self.sym_loop(s.n, s.fn, lambda ss: self.for_segs(ss, run))
            elif isinstance(s, BSeg):
                # one element per dimension of an unknown number of dimensions
                r = s.block.rank

                def fn(k, s=s):
                    if s.lin is None:
                        x = S(app('dimat', (s.block.term, k), 'Int'))
                    else:
                        x = S(app('coord', (s.block.term, s.lin, k), 'Int'))
                    return s.fn(x) if s.fn else x
                self.sym_loop(r, fn, run)
            elif isinstance(s, Hole):
                raise HoleIter(s)
            else:
                raise Unsupported('iteration over %r' % (s,))

    def run_once(self, run, elem):
        """outcome of one iteration"""
        try:
            run(elem)
        except Continue:
            pass
        except Break:
            return ('break', None)
        except Return as r:
            return ('return', r.v)
        except PyRaise as e:
            return ('raise', e.exc)
        except HoleIter as e:
            if not self.cx.quiet:
                raise
            return ('stuck', e.hole)
        return ('normal', None)

    def slot_values(self, o, s):
        if isinstance(o, (Frame, Obj)):
            return s
        return {None: s}

    def sym_loop(self, n, elem, run):
        cx = self.cx
        if n is ZERO or cx.prove(le(n, ZERO)):
            return
        k = fresh('k', 'Int')
        entry = cx.snapshot()
        entry_state = {id(o): (o, self.slot_values(o, s)) for o, s in entry[1]}
        rng = [le(ZERO, k), lt(k, n)]
        written = {}
        known = {}          # slots whose closed form had to be worked out first

        def body():
            for f in rng:
                cx.assume(f)
            for o, nm, ph, b in written.values():
                if isinstance(ph, Arr) and ph.suffix is not None and not known:
                    cx.assume(and_(le(ZERO, ph.suffix), le(ph.suffix, b.shape[0])))
            return self.run_once(run, elem(k))

        cx.quiet += 1
        try:
            for _ in range(12):
                self.place(written)
                if known:
                    self.place_closed({q: written[q] for q in known}, known, k)
                placed = {id(o): self.slot_values(o, s) for o, s in cx.snapshot()[1]}
                paths = cx.explore(body)
                cx.restore(entry)
                new = False
                for conds, facts, outcome, post in paths:
                    for i, (o, s) in post.items():
                        cur = self.slot_values(o, s)
                        if i not in entry_state:
                            ent = placed.get(i, cur)
                            if any(cur.get(q) is not ent.get(q) and not self.same_slot(cur.get(q), ent.get(q))
                                   for q in set(cur) | set(ent)):
                                raise Unsupported('loop-carried object changed in place')
                            continue
                        ent = entry_state[i][1]
                        for name in set(cur) | set(ent):
                            a = cur.get(name, MISSING)
                            if (i, name) in written:
                                if a is not written[(i, name)][2] or True:
                                    continue
                            b = ent.get(name, MISSING)
                            if a is not b and not self.same_slot(a, b):
                                written[(i, name)] = (o, name, self.placeholder(o, b, a), b)
                                new = True
                stuck = [p for p in paths if p[2][0] == 'stuck']
                if not new and stuck:
                    h = stuck[0][2][1]
                    own = [q for q, w in written.items() if isinstance(w[2], tuple) and w[2] and w[2][-1] is h]
                    if not own or own[0] in known:
                        raise HoleIter(h)
                    part = [(p[0], p[1], ('normal', None), p[3]) for p in paths
                            if p[2][0] in ('normal', 'stuck')]
                    known[own[0]] = self.solve(k, n, rng, part, {own[0]: written[own[0]]})[0][own[0]]
                    new = True
                if not new:
                    break
            else:
                raise Unsupported('loop state does not stabilise')
        finally:
            cx.quiet -= 1
            cx.restore(entry)
        nums = [q for q, w in written.items() if isinstance(w[2], S)]
        try:
            closed, finals = self.solve(k, n, rng, paths, written, known)
        except Unsupported:
            if not nums or len(nums) == len(written):
                raise
            closed, finals = self.solve(k, n, rng, paths, {q: written[q] for q in nums}, known)
        if nums and len(nums) < len(written):
            # again with the numbers known, for the sequences and dictionaries built from them
            for q in nums:
                known[q] = closed[q]
            cx.quiet += 1
            try:
                self.place(written)
                self.place_closed({q: written[q] for q in known}, known, k)
                again = cx.explore(body)
            finally:
                cx.quiet -= 1
                cx.restore(entry)
            if not any(p[2][0] == 'stuck' for p in again):
                fin0 = {q: finals[q] for q in nums}
                closed, finals = self.solve(k, n, rng, again, written, known)
                finals.update(fin0)
        # preservation, with the closed forms in place
        self.place_closed(written, closed, k)
        paths = cx.explore(body)
        cx.restore(entry)
        fresh_ok = self.check_preserved(k, n, rng, paths, written, closed)
        exits = [p for p in paths if p[2][0] != 'normal']
        if exits:
            E = or_(*[and_(*p[0]) for p in exits])
            if self.cx.decide(ex_(ZERO, n, k, E)):
                kk = fresh('x', 'Int')
                cx.assume(and_(le(ZERO, kk), lt(kk, n), subst(E, {k: kk})))
                cx.assume(all_(ZERO, kk, k, not_(E)))
                cx.assume_k = kk
                self.place_closed(written, closed, kk)
                out = self.run_once(run, elem(kk))
                if out[0] == 'normal':
                    if cx.prove(FALSE, effort=2):
                        raise PathDead()
                    raise Unsupported('exit condition of a loop')
                if out[0] == 'break':
                    raise Break()
                if out[0] == 'return':
                    raise Return(out[1])
                raise PyRaise(out[1])
        self.place_closed(written, closed, n, finals)

    def same_slot(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and a == () and b == ():
            return True
        if isinstance(a, (int, float, str, bool)) and type(a) is type(b) and a == b:
            return True
        if isinstance(a, S) and isinstance(b, S) and a.t is b.t:
            return True
        return False

    def placeholder(self, o, b, after=None):
        if isinstance(o, (PList,)):
            p = self.stored_list(b, after)
            if p is not None:
                return p
            return b + (Hole(tm.scratch().val),)
        if isinstance(o, PDict):
            return b + (Hole(tm.scratch().val),)
        if isinstance(o, Cell):
            name = fresh('cell', 'Int').val
            sort = {'i': 'Int', 'f': 'Real', 'b': 'Bool'}.get(o.kind)
            if sort is None:
                return lambda idx: (_ for _ in ()).throw(Unsupported('object array in a loop'))
            f = lambda idx: app(name, tuple(idx), sort)
            f.fname = name
            f.sort = sort
            return f
        if isinstance(b, bool):
            return S(fresh('w', 'Bool'))
        if isinstance(b, int):
            return S(fresh('w', 'Int'))
        if isinstance(b, float) and b not in (INF, -INF):
            return S(fresh('w', 'Real'))
        if isinstance(b, S):
            return S(fresh('w', b.t.sort), b.kind)
        if isinstance(b, (tuple, STup)):
            return STup((Hole(tm.scratch().val),))
        if isinstance(b, Arr) and isinstance(after, Arr) and len(b.shape) == len(after.shape) == 1 and \
                not isinstance(b.shape[0], Block) and not isinstance(after.shape[0], Block) and \
                not self.cx.prove(eq(b.shape[0], after.shape[0]), effort=0):
            # an array of which each iteration takes something off the front
            w = fresh('w', 'Int')
            a = self.suffix(b, w)
            a.suffix = w
            return a
        if isinstance(b, Arr) and b.kind in 'ifb':
            name = fresh('arr', 'Int').val
            sort = {'i': 'Int', 'f': 'Real', 'b': 'Bool'}[b.kind]
            a = Arr(b.shape, Cell(self.cx, lambda idx: app(name, tuple(idx), sort), b.kind))
            a.fname = name
            a.sort = sort
            return a
        if isinstance(b, (str, SStr)):
            return SStr((('hole', tm.scratch().val),))
        return Poison('a variable of an earlier iteration')

    def suffix(self, b, w):
        f = b.snap()
        return Arr((sub(b.shape[0], w),), Cell(self.cx, lambda idx: f((add(idx[0], w),)), b.kind, alias_of=b.cell))

    def stored_list(self, b, after):
        """placeholder of a list whose elements are replaced in a loop"""
        b = self.norm_segs(b)
        after = self.norm_segs(after) if isinstance(after, tuple) else ()
        if not all(len(x) == 1 and isinstance(x[0], Rep) and x[0].cond is None for x in (b, after)):
            return None
        n = b[0].n
        if not self.cx.prove(eq(n, after[0].n)):
            return None
        i = tm.scratch()
        with self.cx.scope([le(ZERO, i), lt(i, n)]):
            x = b[0].fn(i)
        if isinstance(x, SymVal):
            sort, wrap = x.t.sort, SymVal
        elif isinstance(x, S):
            sort, wrap = x.t.sort, (lambda t, kind=x.kind: S(t, kind))
        else:
            return None
        name = fresh('list', 'Int').val
        p = StoredList((Rep(n, lambda i: wrap(app(name, (i,), sort))),))
        p.fname, p.sort, p.wrap, p.n = name, sort, wrap, n
        p.base = lambda idx: b[0].fn(idx[0]).t
        return p

    def stored_content(self, ph, v):
        v = self.norm_segs(v)
        if not (len(v) == 1 and isinstance(v[0], Rep) and v[0].cond is None and self.cx.prove(eq(v[0].n, ph.n))):
            raise Unsupported('list rebuilt in a loop')

        def at(idx):
            x = v[0].fn(idx[0])
            if not isinstance(x, (SymVal, S)) or x.t.sort != ph.sort:
                raise Unsupported('values of different kinds in a list')
            return x.t
        return at

    def place(self, written):
        for (i, name), (o, nm, ph, b) in written.items():
            self.set_slot(o, nm, ph)

    def set_slot(self, o, name, v):
        if isinstance(o, Frame):
            if v is MISSING:
                o.vars.pop(name, None)
            else:
                o.vars[name] = v
        elif isinstance(o, Obj):
            if v is MISSING:
                o.attrs.pop(name, None)
            else:
                o.attrs[name] = v
        elif isinstance(o, (PList, PDict)):
            o.segs = v
        else:
            o.content = v

    def place_closed(self, written, closed, j, finals=None):
        for key, (o, nm, ph, b) in written.items():
            f = finals[key] if finals is not None else closed[key]
            self.set_slot(o, nm, f(j))

    def post_slot(self, p, key, written):
        o, nm, ph, b = written[key]
        cur = self.slot_values(o, p[3][key[0]][1])
        return cur.get(nm, MISSING)

    def solve(self, k, n, rng, paths, written, known=None):
        """closed forms: slot -> (j -> value at the start of iteration j), and values after the loop"""
        cx = self.cx
        normal = [p for p in paths if p[2][0] == 'normal']
        closed, finals = {}, {}
        phvars = {}
        for key, (o, nm, ph, b) in written.items():
            if isinstance(ph, S):
                phvars[ph.t] = key
            elif isinstance(ph, Arr) and ph.suffix is not None:
                phvars[ph.suffix] = key
        resolved = {}          # placeholder var -> closed term function

        def sub_resolved(t, at):
            mp = {v: f(at) for v, f in resolved.items() if v in fv(t)}
            return subst(t, mp) if mp else t

        def unresolved(t, allow=()):
            return [v for v in fv(t) if v in phvars and v not in resolved and v not in allow]

        pend = [q for q in written if not known or q not in known]
        for q in known or ():
            closed[q] = finals[q] = known[q]
        if not normal:
            for key in pend:
                o, nm, ph, b = written[key]
                closed[key] = lambda j, b=b: b
                finals[key] = closed[key]
            return closed, finals
        progress = True
        while pend and progress:
            progress = False
            for key in list(pend):
                o, nm, ph, b = written[key]
                b_, suf = b, None
                if isinstance(ph, Arr) and ph.suffix is not None:
                    suf, b, ph = ph, 0, S(ph.suffix, 'i')
                if not isinstance(ph, S):
                    continue
                vals = [(and_(*p[0]), self.post_slot(p, key, written)) for p in normal]
                if suf is not None:
                    vals = [(c, self.suffix_offset(suf, b_, v, rng + p[1])) for (c, v), p in zip(vals, normal)]
                if not all(isinstance(v, (int, float, S)) and not (isinstance(v, float) and v in (INF, -INF))
                           for _, v in vals):
                    # becomes non-numeric: only usable after the loop
                    closed[key] = self.poison_closed(b, 'loop variable %s' % nm)
                    finals[key] = self.last_value(key, written, normal, k, n, rng, b)
                    pend.remove(key)
                    progress = True
                    continue
                m = None
                for c, v in vals:
                    t = self.term(v)[0]
                    if t.sort == 'Bool' and ph.t.sort != 'Bool':
                        t = ite(t, ONE, ZERO)
                    m = t if m is None else ite(c, t, m)
                if len(vals) > 1:
                    m = None
                    for c, v in reversed(vals):
                        t = self.term(v)[0]
                        m = t if m is None else ite(c, t, m)
                x = ph.t
                m0 = m
                if unresolved(m, (x,)):
                    continue
                m = sub_resolved(m, k)
                if len(vals) > 1 and resolved and x.sort != 'Bool':
                    # paths that another variable of the loop, now known, rules out
                    with cx.scope(rng):
                        live = [(c, v) for c, v in vals if unresolved(c, (x,)) or
                                not cx.prove(not_(sub_resolved(c, k)), effort=0)]
                    ts = {sub_resolved(self.term(v)[0], k) for c, v in live}
                    if len(live) < len(vals) and len(ts) == 1:
                        m, = ts
                if x.sort == 'Bool':
                    hi_, lo_ = subst(m, {x: TRUE}), subst(m, {x: FALSE})
                    b0 = self.term(b)[0]
                    if x not in fv(m):
                        f = lambda j, m=m, b0=b0: ite(eq(j, ZERO), b0, subst(m, {k: sub(j, ONE)}))
                    elif hi_ is TRUE:
                        f = lambda j, lo_=lo_, b0=b0: or_(b0, ex_(ZERO, j, k, lo_))
                    elif lo_ is FALSE:
                        f = lambda j, hi_=hi_, b0=b0: and_(b0, all_(ZERO, j, k, hi_))
                    else:
                        raise Unsupported('recurrence of %s' % nm)
                    kind = 'b'
                else:
                    b0 = self.term(b)[0]
                    d = None
                    if x not in fv(m):
                        start = eq(subst(m, {k: num(-1)}), b0)
                        always = start is TRUE or cx.prove(start, effort=0)
                        f = lambda j, m=m, b0=b0, always=always: (subst(m, {k: sub(j, ONE)})
                                                   if always or cx.prove(lt(ZERO, j), effort=0)
                                                   else ite(eq(j, ZERO), b0, subst(m, {k: sub(j, ONE)})))
                    else:
                        d = self.linear_step(m, x)
                        if d is None:
                            d = self.guess_step(m, x, k, rng, b0)
                        if d is None:
                            raise Unsupported('recurrence of %s: %s' % (nm, m))

                        def f(j, d=d, b0=b0):
                            return add(b0, sum_(ZERO, j, k, d))
                    kind = 'f' if (ph.kind == 'f' or any(self.term(v)[1] == 'f' for _, v in vals)) else 'i'
                resolved[x] = f
                closed[key] = lambda j, f=f, kind=kind: self.wrap(f(j), kind)
                if suf is not None:
                    with cx.scope(rng):
                        if not cx.prove(and_(le(ZERO, f(k)), le(f(k), b_.shape[0]))):
                            raise Unsupported('more taken off an array than it holds')
                    closed[key] = lambda j, f=f, b_=b_: self.suffix(b_, f(j))
                finals[key] = closed[key]
                pend.remove(key)
                progress = True
        if any(isinstance(written[key][2], S) or getattr(written[key][2], 'suffix', None) is not None for key in pend):
            raise Unsupported('mutually recursive loop variables %s'
                              % [written[key][1] for key in pend if isinstance(written[key][2], S)])

        def resolve_term(t):
            return sub_resolved(t, k)

        def cond_of(p):
            return resolve_term(and_(*p[0]))

        for key in pend:
            o, nm, ph, b = written[key]
            posts = [(cond_of(p), self.post_slot(p, key, written), list(rng) +
                      [resolve_term(f) for f in p[1]]) for p in normal]
            if isinstance(ph, StoredList):
                cf = self.cell_closed(k, n, rng, ph.fname, ph.sort, ph.base,
                                      [(c, self.stored_content(ph, v), fs) for c, v, fs in posts], resolved)
                closed[key] = lambda j, cf=cf, ph=ph: (Rep(ph.n, lambda i: ph.wrap(cf(j)((i,)))),)
                finals[key] = closed[key]
            elif isinstance(o, PList) or isinstance(ph, STup) and all(
                    isinstance(v, STup) and v.segs[:1] == ph.segs for _, v, _ in posts):
                base = b if isinstance(o, PList) else self.segs_of(b)
                pre = len(base) + 1 if isinstance(o, PList) else 1
                app_ = []
                for c, v, fs in posts:
                    segs = v if isinstance(o, PList) else v.segs
                    hole = ph[-1] if isinstance(o, PList) else ph.segs[0]
                    if len(segs) < pre or segs[pre - 1] is not hole:
                        raise Unsupported('list rebuilt in a loop')
                    app_.append((c, segs[pre:], fs))
                seg = self.appended(k, app_, resolved)
                if isinstance(o, PList):
                    closed[key] = lambda j, base=base, seg=seg: base + seg(j)
                else:
                    closed[key] = lambda j, base=base, seg=seg: self.mktup(base + seg(j))
                finals[key] = closed[key]
            elif isinstance(o, PDict):
                base = b
                adds = []
                for c, v, fs in posts:
                    if v[:len(base)] != base or len(v) <= len(base) or v[len(base)] is not ph[-1]:
                        raise Unsupported('dictionary rebuilt in a loop')
                    adds.append((c, v[len(base) + 1:], fs))
                if len(adds) != 1 and not all(len(a[1]) == 1 for a in adds) or \
                        not all(len(a[1]) == 1 and isinstance(a[1][0], DOne) for a in adds):
                    raise Unsupported('dictionary filled conditionally in a loop')
                c0, (e0,), fs0 = adds[0]
                kv, vv, fs = e0.k, e0.v, fs0
                for c, (e,), f2 in adds[1:]:
                    kv = self.vite(c, e.k, kv)
                    vv = self.vite(c, e.v, vv)
                    fs = rng

                def dseg(j, base=base, kv=kv, vv=vv, fs=fs):
                    return base + (DRep(j, lambda i: self.inst(self.res(kv, resolved, k), k, i, fs),
                                        lambda i: self.inst(self.res(vv, resolved, k), k, i, fs)),)
                closed[key] = dseg
                finals[key] = dseg
            elif isinstance(o, Cell):
                closed[key] = self.cell_closed(k, n, rng, ph.fname, ph.sort, b, posts, resolved)
                finals[key] = closed[key]
            elif isinstance(ph, Arr):
                if not all(isinstance(v, Arr) for _, v, _ in posts):
                    raise Unsupported('array variable %s' % nm)
                contents = [(c, v.snap(), fs) for c, v, fs in posts]
                dep = self.cell_depends(contents, ph.fname, ph.shape)
                if dep:
                    cf = self.cell_closed(k, n, rng, ph.fname, ph.sort, b.snap(), contents, resolved)
                    kinds = {v.kind for _, v, _ in posts} | {b.kind}
                    kd = 'f' if 'f' in kinds else 'i' if 'i' in kinds else 'b'
                    closed[key] = lambda j, cf=cf, b=b, kd=kd: Arr(b.shape, Cell(cx, cf(j), kd))
                    finals[key] = closed[key]
                else:
                    closed[key] = self.poison_closed(b, 'loop variable %s' % nm)
                    finals[key] = self.last_value(key, written, normal, k, n, rng, b, resolved)
            else:
                closed[key] = self.poison_closed(b, 'loop variable %s' % nm)
                finals[key] = self.last_value(key, written, normal, k, n, rng, b, resolved)
        return closed, finals

    def linear_step(self, m, x):
        """d with m = x + d, d free of x, distributing over ites"""
        d = sub(m, x)
        if x not in fv(d):
            return d
        if m.op == 'ite' and x not in fv(m.args[0]):
            a, b = self.linear_step(m.args[1], x), self.linear_step(m.args[2], x)
            if a is not None and b is not None:
                return ite(m.args[0], a, b)
        return None

    def res(self, v, resolved, k):
        """replace the placeholders of other loop variables in a value by their closed forms at k"""
        if isinstance(v, S):
            mp = {x: f(k) for x, f in resolved.items() if x in fv(v.t)}
            return self.wrap(subst(v.t, mp), v.kind) if mp else v
        if isinstance(v, SymVal):
            mp = {x: f(k) for x, f in resolved.items() if x in fv(v.t)}
            return SymVal(subst(v.t, mp)) if mp else v
        if isinstance(v, tuple):
            return tuple(self.res(x, resolved, k) for x in v)
        if isinstance(v, Arr):
            f = v.snap()

            def content(idx):
                t = f(idx)
                if isinstance(t, T):
                    mp = {x: g(k) for x, g in resolved.items() if x in fv(t)}
                    return subst(t, mp) if mp else t
                return self.res(t, resolved, k)
            mp = lambda d: subst(d, {x: g(k) for x, g in resolved.items() if x in fv(d)})
            r = Arr([d if isinstance(d, Block) else mp(d) for d in v.shape],
                    Cell(self.cx, content, v.kind, alias_of=v.cell))
            if v.concat is not None:
                r.concat = v.concat
            return r
        if isinstance(v, SStr):
            return self.mkstr([tuple(subst(x, {y: g(k) for y, g in resolved.items()})
                                     if isinstance(x, T) else x for x in p)
                               if isinstance(p, tuple) else p for p in v.parts])
        return v

    def appended(self, k, app_, resolved):
        """segments (as a function of the number of iterations) of what the paths append"""
        counts = [len(s) for _, s, _ in app_]
        if all(c == 1 for c in counts) and all(isinstance(s[0], One) for _, s, _ in app_):
            v, fs = app_[0][1][0].v, app_[0][2]
            v = self.res(v, resolved, k)
            for c, (s,), f2 in app_[1:]:
                v = self.vite(c, self.res(s.v, resolved, k), v)
                fs = [f for f in fs if f in f2]
            return lambda j: (Rep(j, lambda i: self.inst(v, k, i, fs)),)
        ne_ = [a for a in app_ if a[1]]
        if not ne_:
            return lambda j: ()
        if all(len(a[1]) == 1 and isinstance(a[1][0], One) for a in ne_):
            cond = or_(*[a[0] for a in ne_])
            v, fs = self.res(ne_[0][1][0].v, resolved, k), ne_[0][2]
            for c, (s,), f2 in ne_[1:]:
                v = self.vite(c, self.res(s.v, resolved, k), v)
                fs = [f for f in fs if f in f2]
            return lambda j: (Rep(j, lambda i: self.inst(v, k, i, fs), lambda i: subst(cond, {k: i})),)
        if len(app_) == 1:
            c, segs, fs = app_[0]
            if all(isinstance(s, One) for s in segs):
                segs = [One(self.res(s.v, resolved, k)) for s in segs]
            return lambda j: (Many(j, lambda i: [self.inst_seg(self.res_seg(s, resolved, k), k, i, fs)
                                                 for s in segs]),)
        raise Unsupported('conditional appends in a loop')

    def res_seg(self, s, resolved, k):
        mp = {x: f(k) for x, f in resolved.items()}
        if isinstance(s, Rep):
            return Rep(subst(s.n, mp), lambda i: self.res(s.fn(i), resolved, k), s.cond)
        return s

    def cell_depends(self, contents, fname, shape):
        idx = tuple(tm.scratch() for _ in shape)
        for c, f, fs in contents:
            with self.cx.scope(list(fs) + [and_(le(ZERO, i), lt(i, dsize(d))) for i, d in zip(idx, shape)]):
                t = f(idx)
            if not isinstance(t, T):
                return False
            if any(x.op == 'app' and x.val == fname for x in tm.subterms(t, into_sums=True)):
                return True
        return False

    def cell_closed(self, k, n, rng, fname, sort, content0, posts, resolved):
        """content of an array after j iterations"""
        cx = self.cx

        def closed(j):
            def content(idx):
                if any(k in fv(i) for i in idx) or k in fv(j):
                    # the loop variable of this form is bound: rename what stands outside
                    ii = tuple(fresh('ix', 'Int') for _ in idx)
                    jj = fresh('jx', 'Int')
                    r = content_(ii, jj)
                    mp = dict(zip(ii, idx))
                    mp[jj] = j
                    return subst(r, mp)
                return content_(idx, j)

            def content_(idx, j):
                P = app(fname, tuple(idx), sort)
                t = None
                for c, f, fs in reversed(posts):
                    with cx.scope(fs + [c]):
                        u = f(idx)
                    mp = {x: g(k) for x, g in resolved.items() if x in fv(u)}
                    u = subst(u, mp) if mp else u
                    t = u if t is None else ite(c, u, t)
                def others():
                    return any(x.op == 'app' and x.val == fname and x is not P
                               for x in tm.subterms(t, into_sums=True))
                if others():
                    t = self.own_element(t, fname, P, [])
                if others():
                    raise Unsupported('array update reads other elements of itself')
                PV = fresh('pv', sort)
                t = tm.replace_apps(t, lambda x: PV if x is P else None)
                old = content0(idx)
                if PV not in fv(t):
                    return ite(eq(j, ZERO), old, subst(t, {k: sub(j, ONE)}))
                if sort == 'Bool':
                    hi_, lo_ = subst(t, {PV: TRUE}), subst(t, {PV: FALSE})
                    if hi_ is TRUE:
                        return or_(old, ex_(ZERO, j, k, lo_))
                    if lo_ is FALSE:
                        return and_(old, all_(ZERO, j, k, hi_))
                    c, v = and_(tm.iff(hi_, lo_)), hi_
                    split = (c, v)
                else:
                    d = self.linear_step(t, PV) if sort in ('Int', 'Real') else None
                    if d is not None:
                        return add(old, sum_(ZERO, j, k, d))
                    split = self.split_store(t, PV)
                if split is None and t.op == 'ite' and PV not in fv(t.args[0]) and PV in (t.args[1], t.args[2]):
                    # an element computed from what stands at the same place
                    split = (t.args[0], t.args[1]) if t.args[2] is PV else (not_(t.args[0]), t.args[2])
                if split is None:
                    raise Unsupported('array recurrence %s at %s' % (t, idx))
                c, v = split
                if PV in fv(v):
                    k1, k2 = fresh('k', 'Int'), fresh('k', 'Int')
                    with cx.scope([le(ZERO, k1), lt(k1, k2), lt(k2, n)]):
                        if not cx.prove(not_(and_(subst(c, {k: k1}), subst(c, {k: k2}))), effort=2):
                            raise Unsupported('array recurrence %s' % t)
                    v = subst(v, {PV: old})
                from .deps import part_index
                fill = self.part_fill(c, k, n)
                if fill is not None:
                    x, f = fill
                    w = part_index(self, n, lambda q: subst(f, {k: q}), x)
                    q = tm.scratch()
                    return ite(and_(le(ZERO, x), lt(x, sum_(ZERO, j, q, subst(f, {k: q})))),
                               subst(v, {k: w}), old)
                if k not in fv(v):
                    return ite(ex_(ZERO, j, k, c), v, old)
                for part in (c.args if c.op == 'and' else (c,)):
                    sol = tm.solve_eq(part, k)
                    if sol is not None:
                        return ite(and_(le(ZERO, sol), lt(sol, j), subst(c, {k: sol})),
                                   subst(v, {k: sol}), old)
                # the last iteration that stores here
                kk = fresh('k', 'Int')
                w = app('LASTPOS', (tm.lam_(j, kk, ite(subst(c, {k: kk}), ONE, ZERO)), ONE), 'Int')
                return ite(ex_(ZERO, j, k, c), subst(v, {k: w}), old)
            return content
        return closed

    def part_fill(self, c, k, n):
        """(x, f) if c says that x lies in the k-th of consecutive parts of lengths f(0), f(1), ..."""
        cx = self.cx
        for part in (c.args if c.op == 'and' else (c,)):
            if part.op != 'le0':
                continue
            for m, co in tm.poly_of(part.args[0]).items():
                if co != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'sum':
                    continue
                s = m[0][0]
                if s.args[0] is not ZERO or s.args[1] is not k:
                    continue
                f = subst(s.args[2], {tm.bvar(s): k})
                x = sub(s, part.args[0])
                if k in fv(x):
                    continue
                with cx.scope([le(ZERO, k), lt(k, n)]):
                    if cx.prove(le(ZERO, f)) and cx.prove(tm.iff(c, and_(le(s, x), lt(x, add(s, f))))):
                        return x, f
        return None

    def guess_step(self, m, x, k, rng, b0):
        """d such that x' = m(x) is x + d for the values that x takes, for a case distinction m"""
        def leaves(t):
            if t.op == 'ite':
                return leaves(t.args[1]) + leaves(t.args[2])
            if t.op == 'poly':
                for mo, c in tm.poly_of(t).items():
                    if len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op == 'ite':
                        rest = sub(t, mul(num(c), mo[0][0]))
                        return [add(rest, mul(num(c), y)) for y in leaves(mo[0][0])]
            return [t]
        seen = []
        for y in leaves(m):
            d = sub(y, x)
            if x in fv(d) or d in seen or len(seen) > 6:
                continue
            seen.append(d)
            j = tm.scratch()
            at = add(b0, sum_(ZERO, k, j, subst(d, {k: j})))
            with self.cx.scope(rng):
                if self.cx.prove(eq(subst(m, {x: at}), add(at, d))):
                    return d
        return None

    def suffix_offset(self, ph, b, v, facts):
        """v = b[r:], as a number r"""
        if not (isinstance(v, Arr) and len(v.shape) == 1 and not isinstance(v.shape[0], Block)):
            raise Unsupported('array rebuilt in a loop')
        r = add(ph.suffix, sub(ph.shape[0], v.shape[0]))
        i = fresh('i', 'Int')
        with self.cx.scope(list(facts) + [le(ZERO, i), lt(i, v.shape[0])]):
            x, y = v.at((i,)), b.at((add(r, i),))
            if x is not y and not self.cx.prove(eq(x, y)):
                raise Unsupported('array rebuilt in a loop')
        return S(r, 'i')

    def own_element(self, t, fname, P, conds):
        """t with the elements that are known to be P, where they are read, written as P"""
        if t.op == 'app' and t.val == fname:
            if t is P:
                return t
            goal = and_(*[eq(a, b) for a, b in zip(t.args, P.args)])
            parts = goal.args if goal.op == 'and' else (goal,)
            if all(p is TRUE or p in conds for p in parts):
                return P
            with self.cx.scope(conds):
                return P if self.cx.prove(goal) else t
        if t.op == 'ite':
            c, a, b = t.args
            pos = conds + list(c.args if c.op == 'and' else (c,))
            return ite(c, self.own_element(a, fname, P, pos), self.own_element(b, fname, P, conds + [not_(c)]))
        if t.op == 'poly':
            out = num(0, t.sort)
            for mono, c in tm.poly_of(t).items():
                out = add(out, mul(num(c), *[tm.power(self.own_element(a, fname, P, conds), e) for a, e in mono]))
            return out
        return t

    def split_store(self, t, P):
        if t is P:
            return FALSE, num(0, P.sort)
        if P not in fv(t):
            return TRUE, t
        if t.op == 'ite' and P not in fv(t.args[0]):
            a, b = self.split_store(t.args[1], P), self.split_store(t.args[2], P)
            if a is None or b is None:
                return None
            c = t.args[0]
            cc = or_(and_(c, a[0]), and_(not_(c), b[0]))
            if a[0] is FALSE:
                v = b[1]
            elif b[0] is FALSE:
                v = a[1]
            else:
                v = ite(c, a[1], b[1])
            return cc, v
        return None

    def poison_closed(self, b, why):
        return lambda j: b if j is ZERO else Poison(why)

    def last_value(self, key, written, normal, k, n, rng, b, resolved=None):
        o, nm, ph, _ = written[key]

        def fin(j):
            if not self.cx.prove(lt(ZERO, n)):
                return Poison('value of %s after a loop that may be empty' % nm)
            if len(normal) != 1:
                vals = [(and_(*p[0]), self.post_slot(p, key, written)) for p in normal]
                v = None
                for c, x in reversed(vals):
                    v = x if v is None else self.vite(c, x, v)
                fs = rng
            else:
                v = self.post_slot(normal[0], key, written)
                fs = list(rng) + list(normal[0][1])
            if v is MISSING:
                return Poison('unset variable')
            if isinstance(v, Poison):
                return v
            try:
                v = self.res(v, resolved or {}, k)
                return self.inst(v, k, sub(n, ONE), fs)
            except Unsupported:
                return Poison('value of %s after the loop' % nm)
        return fin

    def check_preserved(self, k, n, rng, paths, written, closed):
        """the inferred invariant is preserved by one iteration"""
        cx = self.cx
        for p in paths:
            if p[2][0] != 'normal':
                continue
            for key, (o, nm, ph, b) in written.items():
                if isinstance(o, PDict):
                    v = self.post_slot(p, key, written)
                    if len(v) != len(b) + 2 or v[:len(b)] != b or not isinstance(v[-1], DOne):
                        raise Unsupported('dictionary entries of a loop may coincide')
                    continue
                if not isinstance(ph, S):
                    continue
                v = self.post_slot(p, key, written)
                with cx.scope(rng + p[1]):
                    want = closed[key](add(k, ONE))
                    if isinstance(v, Poison) or isinstance(want, Poison) or v is MISSING:
                        continue
                    if not isinstance(v, (S, int, float)):
                        continue
                    g = self.s_compare('==', self.term(v)[0], self.term(want)[0])
                    if g is not TRUE and not prover.prove(cx.facts + [le(ZERO, k)], g, timeout=3000):
                        raise Unsupported('invariant of %s not preserved' % nm)
                    if not cx.quiet and cx.run is not None:
                        cx.run.loop_inv(nm)
        return True

    # ================================================================ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        if self.frames:
            self.frames[-1][1] = s.lineno
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        self.cx.line = (fr.glob.name, getattr(s, 'lineno', 0))
        return m(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.world.module(self, a.name)
            if a.asname:
                self.store_name(a.asname, m, fr)
            else:
                self.store_name(a.name.split('.')[0], self.world.module(self, a.name.split('.')[0]), fr)

    def x_ImportFrom(self, s, fr):
        base = s.module or ''
        if s.level:
            pkg = fr.glob.name.split('.')
            pkg = pkg[:len(pkg) - s.level] if not fr.glob.ispkg else pkg[:len(pkg) - s.level + 1]
            base = '.'.join(pkg + ([s.module] if s.module else []))
        for a in s.names:
            v = self.world.import_from(self, base, a.name)
            self.store_name(a.asname or a.name, v, fr)

    def x_Global(self, s, fr):
        for n in s.names:
            fr.nonlocals[n] = 'global'

    def x_Nonlocal(self, s, fr):
        for n in s.names:
            fr.nonlocals[n] = 'nonlocal'

    def x_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            f = self.call(self.eval(d, fr), [f], {})
        self.store_name(self.mangle(s.name, fr), f, fr)

    def make_func(self, node, fr):
        a = node.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {x.arg: self.eval(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Func(node, fr, defaults, kwd, getattr(node, 'name', '<lambda>'), fr.clsname
                    if hasattr(fr, 'clsname') else None)

    def x_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        cf = Frame(self.cx, fr, fr.glob)
        cf.clsname = s.name
        cf.is_class = True
        self.exec_block(s.body, cf)
        c = Cls(s.name, [b for b in bases if isinstance(b, Cls)], cf.vars, fr.glob.name)
        c.other_bases = [b for b in bases if not isinstance(b, Cls)]
        for v in cf.vars.values():
            f = v.f if isinstance(v, Static) else v
            if isinstance(f, Func):
                f.owner = c
        for d in reversed(s.decorator_list):
            c = self.call(self.eval(d, fr), [c], {})
        self.store_name(s.name, c, fr)

    def x_Return(self, s, fr):
        raise Return(self.eval(s.value, fr) if s.value is not None else None)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(self.mangle(t.id, fr), None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                self.delitem(o, self.eval(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                o.attrs.pop(self.mangle(t.attr, fr))
            else:
                raise Unsupported('del')

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
           ast.Pow: '**', ast.MatMult: '@', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^',
           ast.LShift: '<<', ast.RShift: '>>'}
    CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
           ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}

    def x_AugAssign(self, s, fr):
        op = self.OPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = self.load_name(s.target.id, fr)
            v = self.eval(s.value, fr)
            self.store_name(self.mangle(s.target.id, fr), self.inplace(op, cur, v), fr)
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, fr)
            name = self.mangle(s.target.attr, fr)
            cur = self.getattr(o, name)
            v = self.eval(s.value, fr)
            self.setattr(o, name, self.inplace(op, cur, v))
        else:
            o = self.eval(s.target.value, fr)
            i = self.eval(s.target.slice, fr)
            cur = self.getitem(o, i)
            v = self.eval(s.value, fr)
            self.setitem(o, i, self.binop(op, cur, v) if isinstance(o, Arr) else self.inplace(op, cur, v))

    def inplace(self, op, cur, v):
        if isinstance(cur, PList) and op == '+':
            cur.segs = cur.segs + tuple(self.iter_segs(v))
            return cur
        if isinstance(cur, Arr) and cur.ndim > 0:
            r = self.world.np.binop(self, op, cur, v)
            self.world.np.store_all(self, cur, r)
            return cur
        return self.binop(op, cur, v)

    def x_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_For(self, s, fr):
        it = self.eval(s.iter, fr)

        def run(v):
            self.assign(s.target, v, fr)
            self.exec_block(s.body, fr)
        try:
            self.for_each(it, run)
        except Break:
            return
        self.exec_block(s.orelse, fr)

    def x_While(self, s, fr):
        count = 0
        while True:
            c = self.eval(s.test, fr)
            if isinstance(c, S) and c.t.sort == 'Bool' and not self.cx.prove(c.t) and \
                    not self.cx.prove(not_(c.t)):
                if self.while_sym(s, fr):
                    break
                return
            if not self.truth(c):
                break
            count += 1
            if count > 60:
                raise Unsupported('long while loop')
            try:
                self.exec_block(s.body, fr)
            except Break:
                return
            except Continue:
                continue
        self.exec_block(s.orelse, fr)

    def while_sym(self, s, fr):
        """a while loop whose test counts a loop variable up to (or down to) a bound"""
        cx = self.cx
        # number of iterations: run the body generically for a symbolic count N, then determine N by the test
        N = fresh('N', 'Int')
        names = [x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)]
        t0 = self.eval(s.test, fr)
        entry = cx.snapshot()

        # discover the per-iteration step of the variables in the test by one generic execution
        def run(v):
            c = self.eval(s.test, fr)
            self.exec_block(s.body, fr)
        k = fresh('wk', 'Int')
        cx.quiet += 1
        steps = {}
        try:
            vals = {}
            for nme in names:
                if nme in fr.vars and isinstance(fr.vars[nme], (int, S)) and not isinstance(fr.vars[nme], bool):
                    ph = S(fresh('ww', 'Int'))
                    vals[nme] = (fr.vars[nme], ph)
                    fr.vars[nme] = ph

            def body():
                cx.assume(self.term(self.eval(s.test, fr))[0])
                return self.run_once(run, None)
            paths = cx.explore(body)
            cx.restore(entry)
            for nme, (b, ph) in vals.items():
                ds = set()
                for p in paths:
                    if p[2][0] in ('normal',):
                        v = p[3][id(fr)][1].get(nme)
                        ds.add(sub(self.term_i(v), ph.t))
                if len(ds) != 1:
                    raise Unsupported('while loop')
                d, = ds
                if d.op != 'const':
                    raise Unsupported('while loop step')
                steps[nme] = (self.term_i(b), d)
        finally:
            cx.quiet -= 1
            cx.restore(entry)
        # test at iteration k
        save = dict(fr.vars)
        for nme, (b, d) in steps.items():
            fr.vars[nme] = S(add(b, mul(k, d)))
        tk = self.eval(s.test, fr)
        fr.vars = save
        tt = self.term(tk)[0]
        cut = tm.split_at(tt, k)
        if cut is None or not cut[1]:
            raise Unsupported('while loop test %s' % tt)
        n = cut[0]
        n = n if cx.prove(le(ZERO, n)) else ite(le(ZERO, n), n, ZERO)
        try:
            self.for_segs([Rep(n, lambda j: None)], lambda v: self.exec_block(s.body, fr))
        except Break:
            return False
        return True

    def x_Break(self, s, fr):
        raise Break()

    def x_Continue(self, s, fr):
        raise Continue()

    def x_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            self.raise_(AssertionError)

    def x_Raise(self, s, fr):
        if s.exc is None:
            raise PyRaise(fr.handling if hasattr(fr, 'handling') else self.handling[-1])
        e = self.eval(s.exc, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = ExcVal(e, ())
        if isinstance(e, Cls):
            e = self.call(e, [], {})
        if isinstance(e, Obj):
            e = ExcVal(e.cls, (e,))
        if not isinstance(e, ExcVal):
            raise Unsupported('raise %r' % (e,))
        raise PyRaise(e)

    handling = []

    def exc_matches(self, exc, cls):
        if isinstance(cls, tuple):
            return any(self.exc_matches(exc, c) for c in cls)
        if isinstance(cls, type):
            if isinstance(exc.cls, type):
                return issubclass(exc.cls, cls)
            return any(issubclass(b, cls) for b in getattr(exc.cls, 'other_bases', [])
                       if isinstance(b, type))
        return isinstance(exc.cls, Cls) and cls in exc.cls.mro()

    def x_Try(self, s, fr):
        try:
            try:
                self.exec_block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.eval(h.type, fr)):
                        if h.name:
                            fr.vars[h.name] = e.exc
                        self.handling = self.handling + [e.exc]
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.handling = self.handling[:-1]
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        finally:
            if s.finalbody:
                import sys
                et = sys.exc_info()[0]
                if et is None or issubclass(et, (PyRaise, Return, Break, Continue)):
                    self.exec_block(s.finalbody, fr)

    def x_With(self, s, fr):
        done = []
        try:
            for it in s.items:
                v = self.eval(it.context_expr, fr)
                if isinstance(v, Opaque) and (v.tag, 'enter') in self.world.opaques:
                    r = self.world.opaques[(v.tag, 'enter')](self, v)
                    done.append((lambda v: lambda: self.world.opaques[(v.tag, 'exit')](self, v))(v))
                else:
                    raise Unsupported('with statement')
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, r, fr)
            self.exec_block(s.body, fr)
        finally:
            for d in reversed(done):
                d()

    # -- names
    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            c = self.class_name(fr)
            if c:
                return '_' + c.lstrip('_') + name
        return name

    def class_name(self, fr):
        while fr is not None:
            if getattr(fr, 'clsname', None):
                return fr.clsname
            fr = fr.parent
        return None

    def load_name(self, name, fr):
        name = self.mangle(name, fr)
        f = fr
        first = True
        if fr.nonlocals.get(name) == 'global':
            f = None
        while f is not None:
            if name in f.vars and (first or not getattr(f, 'is_class', False)):
                v = f.vars[name]
                if isinstance(v, Poison):
                    return v
                return v
            first = False
            f = f.parent
        if name in fr.glob.ns:
            return fr.glob.ns[name]
        if name in self.world.builtins:
            return self.world.builtins[name]
        self.raise_(NameError, name)

    def store_name(self, name, v, fr):
        if fr.nonlocals:
            how = fr.nonlocals.get(name)
            if how == 'global':
                fr.glob.ns[name] = v
                return
            if how == 'nonlocal':
                f = fr.parent
                while f is not None:
                    if name in f.vars:
                        f.vars[name] = v
                        return
                    f = f.parent
        if fr.is_mod if hasattr(fr, 'is_mod') else False:
            fr.glob.ns[name] = v
            return
        fr.vars[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(self.mangle(t.id, fr), v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                raise Unsupported('starred assignment')
            vs = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.setattr(o, self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_(ValueError, 'unpack')
            return list(v)
        segs = self.norm_segs(self.iter_segs(v))
        if all(isinstance(s, One) for s in segs):
            if len(segs) != n:
                self.raise_(ValueError, 'unpack')
            return [s.v for s in segs]
        ln = add(ZERO, *[self.seglen(s) for s in segs])
        if not self.cx.decide(eq(ln, num(n))):
            self.raise_(ValueError, 'unpack')
        if isinstance(v, STup):
            return [self.getitem(v, i) for i in range(n)]
        raise Unsupported('unpacking')

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            p, c = o.cls.lookup(name)
            if isinstance(p, Static) and p.kind == 'property':
                if getattr(p, 'setter', None) is None:
                    self.raise_(AttributeError, name)
                self.call(Bound(p.setter, o), [v], {})
                return
            o.attrs[name] = v
        elif isinstance(o, Cls):
            o.ns[name] = v
        elif isinstance(o, Func):
            o.attrs[name] = v
        elif isinstance(o, Opaque):
            self.world.opaque_setattr(self, o, name, v)
        elif isinstance(o, Arr) and name == 'shape':
            raise Unsupported('assignment to array shape')
        else:
            raise Unsupported('attribute assignment on %r' % (o,))

    # ================================================================ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        if e.value is Ellipsis:
            return Ellipsis
        if isinstance(e.value, (int, float, str, bool)) or e.value is None:
            return e.value
        raise Unsupported('constant %r' % (e.value,))

    def e_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), self.mangle(e.attr, fr))

    def e_BinOp(self, e, fr):
        return self.binop(self.OPS[type(e.op)], self.eval(e.left, fr), self.eval(e.right, fr))

    def e_UnaryOp(self, e, fr):
        op = {ast.USub: '-', ast.UAdd: '+', ast.Not: 'not', ast.Invert: '~'}[type(e.op)]
        v = self.eval(e.operand, fr)
        if op == 'not':
            if isinstance(v, S) and v.t.sort == 'Bool':
                return self.mkbool(not_(v.t))
            return not self.truth(v)
        return self.unop(op, v)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            b = self.truth(v)
            if is_and and not b:
                return False if isinstance(v, S) and v.t.sort == 'Bool' else v
            if not is_and and b:
                return True if isinstance(v, S) and v.t.sort == 'Bool' else v
        return v

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.compare(self.CMP[type(op)], left, right)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            left = right
        return True

    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def elts(self, es, fr):
        segs = []
        for x in es:
            if isinstance(x, ast.Starred):
                segs.extend(self.iter_segs(self.eval(x.value, fr)))
            else:
                segs.append(One(self.eval(x, fr)))
        return segs

    def e_Tuple(self, e, fr):
        return self.mktup(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return PList(self.cx, self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return Opaque('set', items=PList(self.cx, self.elts(e.elts, fr)))

    def e_Dict(self, e, fr):
        d = PDict(self.cx)
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.eval(v, fr)
                if not isinstance(m, PDict):
                    raise Unsupported('dict unpacking')
                for s in m.segs:
                    if isinstance(s, DOne):
                        self.dict_set(d, s.k, s.v)
                    elif not d.segs:
                        d.segs = d.segs + (s,)
                    else:
                        raise Unsupported('dict unpacking')
            else:
                kk = self.eval(k, fr)
                self.dict_set(d, kk, self.eval(v, fr))
        return d

    def comp(self, e, fr, emit):
        def level(i, f):
            if i == len(e.generators):
                emit(f)
                return
            g = e.generators[i]

            def run(v):
                self.assign(g.target, v, f)
                for c in g.ifs:
                    if not self.truth(self.eval(c, f)):
                        return
                level(i + 1, f)
            self.for_each(self.eval(g.iter, fr if i == 0 else f), run)
        f = Frame(self.cx, fr, fr.glob)
        level(0, f)

    def block_map(self, e, fr):
        """[f(t) for t in <tuple with a block>]"""
        if len(e.generators) != 1 or e.generators[0].ifs:
            return None
        it = self.eval(e.generators[0].iter, fr)
        if not isinstance(it, (STup, PList, Iter, ItemProd)):
            return None, it
        segs = it.segs
        if not any(isinstance(s, BSeg) for s in segs):
            return None, it
        out = []
        for s in segs:
            f = Frame(self.cx, fr, fr.glob)

            def mapped(v):
                self.assign(e.generators[0].target, v, f)
                return self.eval(e.elt, f)
            if isinstance(s, One):
                out.append(One(mapped(s.v)))
            elif isinstance(s, BSeg):
                def fn(v, s=s):
                    return mapped(s.fn(v) if s.fn else v)
                out.append(BSeg(s.block, s.lin, fn, ('map', s.tag)))
            else:
                return None, it
        return out, it

    def e_ListComp(self, e, fr):
        bm = self.block_map(e, fr)
        if bm is not None and bm[0] is not None:
            return PList(self.cx, bm[0])
        out = PList(self.cx)

        def emit(f):
            v = self.eval(e.elt, f)
            out.segs = out.segs + (One(v),)
        self.comp(e, fr, emit)
        out.segs = self.norm_segs(out.segs)
        return out

    def e_GeneratorExp(self, e, fr):
        r = self.e_ListComp(e, fr)
        return Iter(r.segs)

    def e_SetComp(self, e, fr):
        return Opaque('set', items=self.e_ListComp(e, fr))

    def e_DictComp(self, e, fr):
        d = PDict(self.cx)

        def emit(f):
            k = self.eval(e.key, f)
            self.dict_set(d, k, self.eval(e.value, f))
        self.comp(e, fr, emit)
        return d

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        return Slice(*[self.eval(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_Starred(self, e, fr):
        raise Unsupported('starred expression')

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def percent(self, a, b):
        """a % b for a literal format"""
        if isinstance(b, (STup, tuple)):
            segs = self.norm_segs(self.segs_of(b))
            if not all(isinstance(s, One) for s in segs):
                raise Unsupported('formatting of a symbolic tuple')
            vals = [s.v for s in segs]
        else:
            vals = [b]
        parts, n = [], 0
        for x in re.split(r'(%.)', a, flags=re.S):
            if x == '%%':
                parts.append('%')
            elif len(x) == 2 and x[0] == '%':
                if x[1] not in 'sdir' or n >= len(vals):
                    return self.mkstr([a, ('o', 'percent')])
                v = vals[n]
                n += 1
                if x[1] in 'di' and not (isinstance(v, (int, float)) or isinstance(v, S) and v.t.sort == 'Int'):
                    return self.mkstr([a, ('o', 'percent')])
                if x[1] in 'di' and isinstance(v, float):
                    v = int(v)
                parts.append(self.world.format_value(self, v, '', 114 if x[1] == 'r' else -1))
            else:
                parts.append(x)
        if n != len(vals):
            self.raise_(TypeError, 'not all arguments converted during string formatting')
        return self.mkstr(parts)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = self.eval(v.format_spec, fr) if v.format_spec is not None else ''
                parts.append(self.world.format_value(self, x, spec, v.conversion))
        return self.mkstr(parts)

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr) if not (isinstance(e.func, ast.Name) and e.func.id == 'super'
                                          and not e.args) else None
        if f is None:
            return self.super_(fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                segs = self.norm_segs(self.iter_segs(v))
                if all(isinstance(s, One) for s in segs):
                    args.extend(s.v for s in segs)
                else:
                    args.append(Star(segs))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, Opaque) and v.tag == 'kwargs':
                    kw['**'] = v
                    continue
                if not isinstance(v, PDict):
                    raise Unsupported('** of %r' % (v,))
                for s in v.segs:
                    if not isinstance(s, DOne) or not isinstance(s.k, str):
                        raise Unsupported('symbolic keyword arguments')
                    kw[s.k] = s.v
            else:
                kw[k.arg] = v
        if isinstance(f, Bi) and f.name == 'locals':
            raise Unsupported('locals()')
        return self.call(f, args, kw)

    def super_(self, fr):
        f = fr
        while f is not None and not hasattr(f, 'owner'):
            f = f.parent
        if f is None:
            raise Unsupported('super()')
        return Opaque('super', cls=f.owner, self_=f.self_)

    # ================================================================ calls
    def call(self, f, args, kw):
        if isinstance(f, Poison):
            raise Unsupported('use of %s' % f.why)
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported('deep recursion')
        try:
            if isinstance(f, Bi):
                return f.fn(self, args, kw)
            if isinstance(f, Bound):
                return self.call(f.f, [f.self_] + list(args), kw)
            if isinstance(f, Func):
                return self.call_func(f, args, kw)
            if isinstance(f, Cls):
                return self.instantiate(f, args, kw)
            if isinstance(f, type) and issubclass(f, BaseException):
                return ExcVal(f, tuple(args))
            if isinstance(f, type):
                return self.world.call_type(self, f, args, kw)
            if isinstance(f, Static):
                return self.call(f.f, args, kw)
            if isinstance(f, Obj):
                m, c = f.cls.lookup('__call__')
                if m is None:
                    self.raise_(TypeError, 'not callable')
                return self.call(Bound(m, f), args, kw)
            if isinstance(f, Opaque):
                return self.world.opaque_call(self, f, args, kw)
            if f is None or isinstance(f, (int, float, str, S, tuple, PList, PDict, Arr)):
                self.raise_(TypeError, 'object is not callable')
            raise Unsupported('call of %r' % (f,))
        finally:
            self.depth -= 1

    def instantiate(self, c, args, kw):
        if any(isinstance(b, type) and issubclass(b, BaseException) for k in c.mro()
               for b in getattr(k, 'other_bases', [])):
            return ExcVal(c, tuple(args))
        for k in c.mro():
            pass
        abstract = set()
        for k in reversed(c.mro()):
            for n, v in k.ns.items():
                if getattr(v, 'abstract', False):
                    abstract.add(n)
                else:
                    abstract.discard(n)
        if abstract and any(getattr(b, 'tag', None) == 'ABC' for k in c.mro() for b in
                            getattr(k, 'other_bases', [])):
            self.raise_(TypeError, 'abstract class')
        o = Obj(self.cx, c)
        init, _ = c.lookup('__init__')
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            self.raise_(TypeError, 'arguments to object()')
        return o

    def call_func(self, f, args, kw):
        fr = Frame(self.cx, f.frame, f.frame.glob)
        if hasattr(f, 'owner'):
            fr.owner = f.owner
            fr.self_ = args[0] if args else None
        if f.cls:
            fr.clsname = f.cls
        self.bind(f, fr, list(args), dict(kw))
        qn = '%s.%s%s' % (getattr(f.frame.glob, 'name', '?'), f.cls + '.' if f.cls else '', f.name)
        self.world.called.add(qn)
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, fr)
        if len(self.frames) > 200:
            raise Unsupported('recursion too deep')
        self.frames.append([qn, f.node.lineno])
        try:
            return self.run_body(f, fr)
        except (Unsupported, PyRaise) as e:
            if not hasattr(e, 'where'):
                e.where = ' > '.join('%s:%d' % tuple(x) for x in self.frames[-4:])
            raise
        finally:
            self.frames.pop()

    def run_body(self, f, fr):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in self.own_nodes(f.node)):
            return self.generator(f, fr)
        try:
            self.exec_block(f.node.body, fr)
        except Return as r:
            return r.v
        except Break:
            raise Unsupported('break outside a loop')
        return None

    _own = {}

    def own_nodes(self, node):
        r = Interp._own.get(id(node))
        if r is None:
            r = []
            stack = list(node.body)
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                r.append(x)
                stack.extend(ast.iter_child_nodes(x))
            Interp._own[id(node)] = r
        return r

    def generator(self, f, fr):
        """a generator function, run to completion; its yields are collected"""
        out = PList(self.cx)
        fr.yields = out
        try:
            self.exec_block(f.node.body, fr)
        except Return:
            pass
        return Iter(out.segs)

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        fr.yields.segs = fr.yields.segs + (One(v),)
        return None

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        fr.yields.segs = fr.yields.segs + tuple(self.iter_segs(v))
        return None

    def bind(self, f, fr, args, kw):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        name = f.name
        pos = list(args)
        vals = {}
        i = 0
        while i < len(params) and pos and not isinstance(pos[0], Star):
            vals[params[i]] = pos.pop(0)
            i += 1
        if pos:
            if i < len(params) and isinstance(pos[0], Star):
                # take elements from the symbolic argument list
                tup = STup(sum([list(p.segs) if isinstance(p, Star) else [One(p)] for p in pos], []))
                if a.vararg is not None and i >= len(params):
                    pass
                else:
                    need = len(params) - i
                    nd = len(f.defaults)
                    ln = self.length(tup)
                    if self.cx.decide(eq(ln, num(need))):
                        for j in range(need):
                            vals[params[i + j]] = self.getitem(tup, j)
                        pos = []
                        i = len(params)
                    else:
                        raise Unsupported('symbolic argument list')
            if pos:
                if a.vararg is None:
                    self.raise_(TypeError, '%s() takes %d positional arguments' % (name, len(params)))
                segs = []
                for p in pos:
                    segs.extend(p.segs if isinstance(p, Star) else [One(p)])
                vals[a.vararg.arg] = self.mktup(segs)
        if a.vararg is not None and a.vararg.arg not in vals:
            vals[a.vararg.arg] = ()
        symkw = kw.pop('**', None)
        names = set(params) | {x.arg for x in a.kwonlyargs}
        extra = []
        for k, v in kw.items():
            if k in names:
                if k in vals:
                    self.raise_(TypeError, '%s() got multiple values for argument %s' % (name, k))
                vals[k] = v
            elif a.kwarg is not None:
                extra.append((k, v))
            else:
                self.raise_(TypeError, '%s() got an unexpected keyword argument %s' % (name, k))
        if a.kwarg is not None:
            if symkw is not None:
                if extra:
                    raise Unsupported('keyword arguments')
                vals[a.kwarg.arg] = symkw
            else:
                vals[a.kwarg.arg] = PDict(self.cx, [DOne(k, v) for k, v in extra])
        elif symkw is not None:
            raise Unsupported('symbolic keyword arguments')
        nd = len(f.defaults)
        for j, p in enumerate(params):
            if p not in vals:
                d = j - (len(params) - nd)
                if d < 0:
                    self.raise_(TypeError, '%s() missing argument %s' % (name, p))
                vals[p] = f.defaults[d]
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg not in f.kwdefaults:
                    self.raise_(TypeError, '%s() missing argument %s' % (name, x.arg))
                vals[x.arg] = f.kwdefaults[x.arg]
        for k, v in vals.items():
            fr.vars[self.mangle(k, fr)] = v

    # ================================================================ attributes and items
    def getattr(self, o, name):
        return self.world.getattr(self, o, name)

    def getitem(self, o, i):
        return self.world.getitem(self, o, i)

    def setitem(self, o, i, v):
        return self.world.setitem(self, o, i, v)

    def delitem(self, o, i):
        if isinstance(o, PDict):
            self.dict_del(o, i)
        elif isinstance(o, Obj):
            f, c = o.cls.lookup('__delitem__')
            if f is None:
                self.raise_(TypeError, 'does not support item deletion')
            self.call(Bound(f, o), [i], {})
        elif isinstance(o, PList) and isinstance(i, int) and all(isinstance(s, One) for s in o.segs):
            l = list(o.segs)
            try:
                del l[i]
            except IndexError:
                self.raise_(IndexError)
            o.segs = tuple(l)
        elif isinstance(o, Opaque):
            return self.world.opaque_delitem(self, o, i)
        else:
            raise Unsupported('del item of %r' % (o,))

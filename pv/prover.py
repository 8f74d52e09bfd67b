"""Discharging obligations: facts |- goal, with the normaliser and z3 as back ends."""
import time
from fractions import Fraction
import z3
from . import terms as tm
from .terms import ne
from .terms import (TRUE, FALSE, ZERO, ONE, num, add, sub, mul, neg, le, lt, eq, not_, and_, or_, ite,
                    subst, poly_of, from_poly, fv, subterms, bvar, open_binder)

STATS = {'queries': 0, 'z3_s': 0.0, 'simplifier': 0, 'z3': 0}
_cache = {}


class Sk:
    ctr = 0


def skolem(sort='Int'):
    Sk.ctr += 1
    return tm.var('sk%%%d' % Sk.ctr, sort)


def nnf_atoms(t):
    return t


def sums_in(t):
    return [x for x in subterms(t) if x.op == 'sum']


AXIOMS = {}
PAIR_AXIOMS = {}


def axiom(*names):
    def deco(f):
        for n in names:
            AXIOMS[n] = f
        return f
    return deco


def pair_axiom(name):
    def deco(f):
        PAIR_AXIOMS[name] = f
        return f
    return deco


@axiom('ORDER')
def ax_order(x):
    """numpy.argsort: a permutation that sorts"""
    L, j = x.args
    n = L.args[0]
    return [tm.implies(and_(le(ZERO, j), lt(j, n)), and_(le(ZERO, x), lt(x, n)))]


@pair_axiom('ORDER')
def ax_order2(x, y):
    if x.args[0] is not y.args[0]:
        return []
    L, i, j = x.args[0], x.args[1], y.args[1]
    n = L.args[0]
    inr = [le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n)]
    fx, fy = open_binder(L, x), open_binder(L, y)
    return [tm.implies(and_(*inr, lt(i, j)), and_(le(fx, fy), tm.ne(x, y))),
            tm.implies(and_(*inr, lt(j, i)), and_(le(fy, fx), tm.ne(x, y)))]


@axiom('size', 'rank', 'FL', 'NFI')
def ax_nonneg(x):
    return [le(ZERO, x)]


def _lam(l):
    n = l.args[0]
    return n, (lambda k: open_binder(l, k))


def prefix(l, hi):
    n, f = _lam(l)
    k = tm.scratch()
    return tm.sum_(ZERO, hi, k, f(k))


def _prefix_args(l, x):
    """(k, rest) such that x = prefix(l, k) + rest, for the sums that occur in x"""
    n, f = _lam(l)
    out = []
    for m, c in poly_of(x).items():
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum':
            s = m[0][0]
            for k in (s.args[1],):
                if prefix(l, k) is s:
                    out.append((k, sub(x, s)))
    return out


@axiom('SEL')
def ax_sel(x):
    l, i = x.args
    if l.op != 'lam':
        return []
    n, f = _lam(l)
    cnt = prefix(l, n)
    inr = and_(le(ZERO, i), lt(i, cnt))
    out = [tm.implies(inr, and_(le(ZERO, x), lt(x, n), lt(ZERO, f(x)), eq(prefix(l, x), i)))]
    for k, r in _prefix_args(l, i):
        out.append(tm.implies(and_(le(ZERO, k), lt(k, n), lt(ZERO, f(k)), eq(r, ZERO)), eq(x, k)))
    return out


@pair_axiom('SEL')
def ax_sel2(x, y):
    if x.args[0] is not y.args[0]:
        return []
    i, j = x.args[1], y.args[1]
    cnt = prefix(x.args[0], x.args[0].args[0])
    inr = and_(le(ZERO, i), lt(i, cnt), le(ZERO, j), lt(j, cnt))
    return [tm.implies(and_(inr, lt(i, j)), lt(x, y)), tm.implies(and_(inr, lt(j, i)), lt(y, x))]


@axiom('LASTPOS')
def ax_lastpos(x):
    l, v = x.args
    if l.op != 'lam':
        return []
    n, f = _lam(l)
    k = tm.scratch()
    hit = tm.ex_(ZERO, n, k, eq(f(k), v))
    k2 = tm.scratch()
    return [tm.implies(hit, and_(le(ZERO, x), lt(x, n), eq(f(x), v),
                                 tm.all_(add(x, ONE), n, k2, not_(eq(f(k2), v)))))]


@axiom('keyidx')
def ax_keyidx(x):
    l, v = x.args
    if l.op != 'lam' or l.args[-1].sort != 'Int' or v.sort != 'Int':
        return []
    n, f = _lam(l)
    k = tm.scratch()
    return [tm.implies(tm.ex_(ZERO, n, k, eq(f(k), v)), and_(le(ZERO, x), lt(x, n), eq(f(x), v)))]


@axiom('PART')
def ax_part(x):
    l, v = x.args
    if l.op != 'lam':
        return []
    n, f = _lam(l)
    out = [tm.implies(and_(le(ZERO, v), lt(v, prefix(l, n))),
                      and_(le(ZERO, x), lt(x, n), le(prefix(l, x), v), lt(v, add(prefix(l, x), f(x)))))]
    for k, r in _prefix_args(l, v):
        q = tm.scratch()
        out.append(tm.implies(and_(le(ZERO, k), lt(k, n), le(ZERO, r), lt(r, f(k)),
                                   tm.all_(ZERO, n, q, le(ZERO, f(q)))), eq(x, k)))
    return out


@axiom('vmax')
def ax_vmax(x):
    l, = x.args
    if l.op != 'lam':
        return []
    n, f = _lam(l)
    k, k2 = tm.scratch(), tm.scratch()
    return [tm.implies(lt(ZERO, n), tm.ex_(ZERO, n, k, eq(f(k), x))), tm.all_(ZERO, n, k2, le(f(k2), x))]


@axiom('vmaxn')
def ax_vmaxn(x):
    l, d = x.args
    dims, idx = [], []
    for _ in range(int(d.val)):
        if l.op != 'lam':
            return []
        n, f = _lam(l)
        k = tm.scratch()
        dims.append(n)
        idx.append(k)
        l = f(k)
    e, a = eq(l, x), le(l, x)
    for n, k in zip(reversed(dims), reversed(idx)):
        e, a = tm.ex_(ZERO, n, k, e), tm.all_(ZERO, n, k, a)
    return [tm.implies(and_(*[lt(ZERO, n) for n in dims]), e), a]


@axiom('ELT')
def ax_elt(x):
    l, i, j = x.args
    return [eq(x, tm.open_elt(l, i, j))]


@axiom('CHOL')
def ax_chol(x):
    l, i, j = x.args
    if l.op != 'lam':
        return []
    return [tm.implies(and_(eq(i, j), le(ZERO, i), lt(i, l.args[0]), tm.app('ISPD', (l,), 'Bool')), lt(ZERO, x))]


@axiom('trow')
def ax_trow(x):
    t, = x.args
    r, c = x, tm.app('tcol', (t,), 'Int')
    return [tm.implies(le(ZERO, t), and_(le(ZERO, c), le(c, r),
                                         eq(mul(num(2), t), add(mul(r, add(r, ONE)), mul(num(2), c)))))]


@axiom('tcol')
def ax_tcol(x):
    return ax_trow(tm.app('trow', x.args, 'Int'))


def loose(t):
    return any(v.val.startswith('#') for v in fv(t))


def nonlin(t):
    """number of non-linear monomials"""
    return sum(1 for m in poly_of(t) if sum(e for _, e in m) > 1)


class Query:
    """ground abstraction of  facts /\\ not goal"""

    def __init__(self, facts, goal, depth, budget=60):
        self.depth = depth
        self.budget = budget
        self.clauses = []          # ground formulas
        self.foralls = []          # (guard term, ex-term, outer)  asserted:  guard -> not ex
        self.sk = {}
        self.named = {}
        self.done_inst = set()
        self.facts0 = facts
        self.done_ax = set()
        for f in facts:
            self.assert_(f)
        self.assert_(not_(goal))

    def assert_(self, f):
        g = self.pos(f)
        if g is not TRUE:
            self.clauses.append(g)

    def pos(self, f):
        """ground formula implied by f (with fresh skolems)"""
        if f.op == 'and':
            return and_(*[self.pos(a) for a in f.args])
        if f.op == 'or':
            return or_(*[self.pos(a) for a in f.args])
        if f.op == 'ex':
            s = self.sk.get(f)
            if s is None:
                s = self.sk[f] = skolem()
            lo, hi = f.args[0], f.args[1]
            return and_(self.num(le(lo, s)), self.num(lt(s, hi)), self.pos(open_binder(f, s)))
        if f.op == 'not':
            g = f.args[0]
            if g.op == 'and':
                return or_(*[self.pos(not_(a)) for a in g.args])
            if g.op == 'or':
                return and_(*[self.pos(not_(a)) for a in g.args])
            if g.op == 'ex':
                b = tm._mk('var', 'all%%%d' % g.id, (), 'Bool')
                if b not in self.named:
                    self.named[b] = g
                    self.foralls.append((b, g))
                return b
            if g.op == 'eq' and g.args[0].sort == 'Bool':
                a, b = g.args
                return or_(and_(self.pos(a), self.pos(not_(b))), and_(self.pos(not_(a)), self.pos(b)))
            return self.num(f)
        if f.op == 'eq' and f.args[0].sort == 'Bool':
            a, b = f.args
            return or_(and_(self.pos(a), self.pos(b)), and_(self.pos(not_(a)), self.pos(not_(b))))
        return self.num(f)

    def num(self, f):
        """replace quantified conditions inside ites by names"""
        if not any(x.op == 'ite' for x in subterms(f)):
            return f

        def fn(t):
            if t.op == 'ite' and any(x.op == 'ex' for x in subterms(t.args[0])):
                c = t.args[0]
                b = tm._mk('var', 'cond%%%d' % c.id, (), 'Bool')
                if b not in self.named:
                    self.named[b] = c
                    self.clauses.append(or_(not_(b), self.pos(c)))
                    self.clauses.append(or_(b, self.pos(not_(c))))
                return ite(b, t.args[1], t.args[2])
        return tm.replace_apps(f, fn, None, False)

    # -- instantiation
    def ground_apps(self):
        apps = {}
        ints = set()
        for c in self.clauses:
            for x in subterms(c, into_sums=True):
                if x.op == 'app':
                    apps.setdefault((x.val, len(x.args)), set()).add(x)
                    for a in x.args:
                        if a.sort == 'Int' and not loose(a):
                            ints.add(a)
                elif x.op == 'var' and x.sort == 'Int' and not x.val.startswith('#'):
                    ints.add(x)
        return apps, ints

    def triggers(self, ext):
        """patterns in the body of the quantifier that contain its variable: (app, argpos, coef, rest)"""
        bv = bvar(ext)
        pats = []
        for x in subterms(ext.args[-1], into_sums=True):
            if x.op == 'app' and bv in fv(x):
                for i, a in enumerate(x.args):
                    if a.sort == 'Int' and bv in fv(a):
                        p = poly_of(a)
                        c = p.get(((bv, 1),))
                        rest = from_poly({m: y for m, y in p.items() if m != ((bv, 1),)}, 'Int')
                        if c in (1, -1) and bv not in fv(rest):
                            pats.append((x, i, int(c), rest))
                            continue
                        # bv is multiplied by a term: candidates are quotients
                        co = {}
                        for m, y in p.items():
                            d = dict(m)
                            if d.get(bv) == 1 and not any(bv in fv(z) for z in d if z is not bv):
                                del d[bv]
                                co[tuple((z, n) for z, n in m if z is not bv)] = y
                            elif any(bv in fv(z) for z in d):
                                co = None
                                break
                        if co:
                            lead = max(co, key=tm._lex)
                            if not any(v.val.startswith('#') for z, _ in lead for v in fv(z)):
                                gr = {m: y for m, y in p.items()
                                      if not any(v.val.startswith('#') for z, _ in m for v in fv(z))}
                                pats.append((x, i, None, (lead, co[lead], from_poly(gr, 'Int'))))
        return pats

    def instantiate(self, rounds=3):
        for _ in range(rounds):
            apps, ints = self.ground_apps()
            new = False
            for b, ext in list(self.foralls):
                cands = set()
                pats = self.triggers(ext)
                for x, i, c, rest in pats:
                    if c is None:
                        lead, cl, gr = rest
                        for g in apps.get((x.val, len(x.args)), ()):
                            q = {}
                            for m, y in poly_of(sub(g.args[i], gr)).items():
                                d = tm._mono_div(m, lead)
                                if d is not None and lead:
                                    q[d] = q.get(d, 0) + y / cl
                            q = from_poly(q, 'Int')
                            if q.sort == 'Int':
                                cands.add(q)
                        continue
                    nlr = nonlin(rest)
                    if any(v.op == 'var' and v.val.startswith('#') for v in fv(rest)):
                        rest_ok = False
                    else:
                        rest_ok = True
                    for g in apps.get((x.val, len(x.args)), ()):
                        # other constant arguments must agree
                        okk = True
                        for j, (xa, ga) in enumerate(zip(x.args, g.args)):
                            if j != i and not fv(xa) and xa is not ga:
                                okk = False
                                break
                            if j != i and xa.sort not in ('Int', 'Real') and \
                                    not any(v.val.startswith('#') for v in fv(xa)) and xa is not ga \
                                    and xa.sort != 'Bool':
                                pass
                        if okk and rest_ok:
                            q = mul(num(c), sub(g.args[i], rest))
                            if nlr == 0 or nonlin(q) <= max(0, nonlin(g.args[i]) - nlr):
                                cands.add(q)
                if not pats:
                    cands = {x for x in ints}
                if len(cands) > 24:
                    cands = set(sorted(cands, key=lambda t: (len(subterms(t)), t.id))[:24])
                for t in sorted(cands, key=lambda t: t.id):
                    if any(v.val.startswith('#') for v in fv(t)):
                        continue
                    key = (b, t)
                    if key in self.done_inst or len(self.done_inst) > 400:
                        continue
                    self.done_inst.add(key)
                    new = True
                    lo, hi = ext.args[0], ext.args[1]
                    body = open_binder(ext, t)
                    self.clauses.append(or_(not_(b), self.num(lt(t, lo)), self.num(le(hi, t)),
                                            self.pos(not_(body))))
            if not new:
                break

    # -- axioms of the contracts' functions, instantiated on the ground terms
    def axioms(self, rounds=2):
        new = False
        for _ in range(rounds):
            atoms = set()
            for c in self.clauses:
                subterms(c, atoms)
            todo = [x for x in atoms if x.op == 'app' and x.val in AXIOMS and x not in self.done_ax]
            if not todo or len(self.done_ax) > 200:
                break
            for x in sorted(todo, key=lambda t: t.id):
                if any(v.op == 'var' and v.val.startswith('#') for v in fv(x)):
                    continue
                self.done_ax.add(x)
                for f in AXIOMS[x.val](x):
                    if f is not TRUE:
                        self.assert_(f)
                        new = True
                if x.val in PAIR_AXIOMS:
                    for y in list(self.done_ax):
                        if y is not x and y.val == x.val:
                            for f in PAIR_AXIOMS[x.val](x, y):
                                if f is not TRUE:
                                    self.assert_(f)
                                    new = True
        return new

    # -- lemmas
    def lemmas(self, level):
        out = []
        atoms = set()
        for c in self.clauses:
            subterms(c, atoms)
        exps = [x for x in atoms if x.op == 'app' and x.val == 'exp']
        logs = [x for x in atoms if x.op == 'app' and x.val == 'log']
        for e in exps:
            out.append(lt(ZERO, e))
        for e in atoms:
            if e.op == 'app' and e.val == 'SP_gamma':       # the gamma function has no zeros
                out.append(ne(e, num(0, 'Real')))
        if len(exps) <= 6:
            for i, a in enumerate(exps):
                out.append(tm.iff(lt(ONE, a), lt(ZERO, a.args[0])))
                out.append(tm.iff(lt(a, ONE), lt(a.args[0], ZERO)))
                for b in exps[:i]:
                    out.append(tm.iff(lt(a, b), lt(a.args[0], b.args[0])))
        if len(logs) <= 6:
            for i, a in enumerate(logs):
                pa = lt(ZERO, a.args[0])
                out.append(tm.implies(pa, tm.iff(lt(ONE, a.args[0]), lt(ZERO, a))))
                for b in logs[:i]:
                    out.append(tm.implies(and_(pa, lt(ZERO, b.args[0])),
                                          tm.iff(lt(a, b), lt(a.args[0], b.args[0]))))
        for x in atoms:
            if x.op == 'app' and x.val == 'sqrt':
                # x*x = arg, written so that the simplifier does not collapse it
                out.append(('sq', x, x.args[0]))
                out.append(or_(lt(x.args[0], ZERO), le(ZERO, x)))
                out.append(or_(le(x.args[0], ZERO), lt(ZERO, x)))
            elif x.op == 'par':
                out.append(('inv', x))
            elif x.op == 'app' and x.val in ('idiv', 'imod'):
                out.extend(divmod_lemma(x))
        if level >= 1:
            sums = sorted([x for x in atoms if x.op == 'sum'], key=lambda t: t.id)
            more = self.sum_lemmas(sums)
            for f in more:
                self.assert_(f)
            self.instantiate(1)
            new = set()
            for f in more:
                subterms(f, new)
            for x in new - atoms:
                if x.op == 'app' and x.val in ('idiv', 'imod'):
                    out.extend(divmod_lemma(x))
        return out

    def sum_lemmas(self, sums):
        out = []
        base = [f for f in self.facts0]
        d = self.depth + 1
        if d > 3:
            return out
        wit = sorted({x for c in self.clauses for x in fv(c) if x.sort == 'Int' and x.val.startswith('sk%')},
                     key=lambda t: -t.id)
        apps, _ = self.ground_apps()
        for s in sums[:8]:
            lo, hi, _ = s.args
            k = skolem()
            body = open_binder(s, k)
            rng = [le(lo, k), lt(k, hi)]
            if prove(base + rng, le(ZERO, body), depth=d, timeout=1000):
                out.append(le(ZERO, s))
                out.append(or_(le(hi, lo), le(subst(body, {k: lo}), s)))
                if prove(base + rng, lt(ZERO, body), depth=d, timeout=1000):
                    out.append(or_(le(hi, lo), lt(ZERO, s)))
                else:
                    cands = set()
                    if len(self.clauses) < 200:
                        for x, i, c, rest in self.triggers(s):
                            if c is None or loose(rest):
                                continue
                            for g in apps.get((x.val, len(x.args)), ()):
                                if not loose(g.args[i]):
                                    cands.add(mul(num(c), sub(g.args[i], rest)))
                    cands = [z for z in sorted(cands, key=lambda t: t.id) if z not in wit]
                    for z in wit[:4] + cands[:4]:
                        out.append(or_(lt(z, lo), le(hi, z), le(subst(body, {k: z}), s)))
            elif prove(base + rng, le(body, ZERO), depth=d, timeout=500):
                out.append(le(s, ZERO))
            # empty and one-element ranges
            out.append(or_(lt(lo, hi), eq(s, ZERO)))
        # a sum and a later part of it
        for s in sums[:8]:
            for t in sums[:8]:
                if s is not t and s.args[1] is t.args[1] and s.args[2] is t.args[2] and s.args[0] is not t.args[0] \
                        and len(sums) < 12:
                    k = skolem()
                    w = tm.sum_(s.args[0], t.args[0], k, open_binder(s, k))
                    out.append(or_(lt(t.args[0], s.args[0]), lt(s.args[1], t.args[0]), eq(s, add(w, t))))
                    if w.op == 'sum' and w not in sums:
                        sums = sums + [w]
        for i, s in enumerate(sums[:10]):
            for t in sums[:i]:
                k = skolem()
                bs, bt = open_binder(s, k), open_binder(t, k)
                (lo1, hi1), (lo2, hi2) = s.args[:2], t.args[:2]
                if bs is bt and lo1 is lo2:
                    dd = sub(hi2, hi1)
                    if dd.op == 'const' and abs(dd.val) <= 3:
                        a, b, x, y = (s, t, hi1, hi2) if dd.val > 0 else (t, s, hi2, hi1)
                        tot = a
                        for j in range(int(abs(dd.val))):
                            tot = add(tot, open_at(bs, k, add(x, num(j))))
                        out.append(or_(lt(x, lo1), eq(b, tot)))
                    else:
                        for a, b, x, y in ((s, t, hi1, hi2), (t, s, hi2, hi1)):
                            if prove(base + [le(lo1, k), lt(k, y)], le(ZERO, bs), depth=d, timeout=500):
                                out.append(or_(lt(y, x), lt(x, lo1), le(a, b)))
                                out.append(or_(le(y, x), lt(x, lo1), le(add(a, open_at(bs, k, x)), b)))
                    continue
                if bs.sort != bt.sort:
                    continue
                # the same entries, counted from the second one on
                hit = False
                for a, b, ba, bb in ((s, t, bs, bt), (t, s, bt, bs)):
                    (la, ha), (lb, hb) = a.args[:2], b.args[:2]
                    if la is lb and sub(ha, hb) is ONE and subst(ba, {k: add(k, ONE)}) is bb:
                        out.append(or_(le(ha, la), eq(a, add(subst(ba, {k: la}), b))))
                        hit = True
                if hit:
                    continue
                if prove(base, and_(eq(lo1, lo2), eq(hi1, hi2)), depth=d, timeout=300) and \
                        prove(base + [le(lo1, k), lt(k, hi1)], eq(bs, bt), depth=d, timeout=2000):
                    out.append(eq(s, t))
        return out


def divmod_lemma(x):
    a, b = x.args
    q, r = tm.app('idiv', (a, b), 'Int'), tm.app('imod', (a, b), 'Int')
    out = [or_(le(b, ZERO), and_(eq(a, add(mul(q, b), r)), le(ZERO, r), lt(r, b)))]
    if b.op in ('var', 'app'):
        # a = b*Q + R syntactically
        Q, R = {}, {}
        for m, c in poly_of(a).items():
            e = dict(m).get(b, 0)
            if e > 0:
                d = dict(m)
                d[b] -= 1
                Q[tuple(sorted(((y, z) for y, z in d.items() if z), key=lambda yz: yz[0].id))] = c
            else:
                R[m] = c
        if Q:
            Q, R = from_poly(Q, 'Int'), from_poly(R, 'Int')
            if Q.sort == 'Int' and R.sort == 'Int':
                out.append(tm.implies(and_(le(ZERO, R), lt(R, b)), and_(eq(q, Q), eq(r, R))))
    return out


def open_at(body, k, t):
    return subst(body, {k: t})


# ------------------------------------------------------------------ z3 back end
class Z3Tr:
    def __init__(self, ackermann=False, allreal=False):
        self.memo = {}
        self.side = []
        self.sorts = {}
        self.funs = {}
        self.ack = ackermann
        self.ackapps = {}
        self.allreal = allreal
        self.vars = {}

    def sort(self, s):
        if s == 'Int':
            return z3.RealSort() if self.allreal else z3.IntSort()
        if s == 'Real':
            return z3.RealSort()
        if s == 'Bool':
            return z3.BoolSort()
        if s not in self.sorts:
            self.sorts[s] = z3.DeclareSort(s.replace(':', '_'))
        return self.sorts[s]

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tr(t)
            self.memo[t] = r
        return r

    def num(self, t):
        """as z3 arithmetic term"""
        return self.tr(t)

    def _tr(self, t):
        op = t.op
        if op == 'const':
            if t.sort == 'Int' and t.val.denominator == 1 and not self.allreal:
                return z3.IntVal(int(t.val))
            return z3.RealVal(str(t.val))
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'var':
            c = z3.Const(t.val, self.sort(t.sort))
            self.vars[t] = c
            return c
        if op == 'strc':
            return z3.Const('str:' + t.val, self.sort('U:Key'))
        if op == 'poly':
            parts = []
            real = t.sort == 'Real' or any(c.denominator != 1 for c in t.val[1])
            for m, c in poly_of(t).items():
                fs = []
                den = c.denominator != 1
                for a, e in m:
                    x = self.tr(a) if e > 0 else self.inv(a)
                    for _ in range(abs(e)):
                        fs.append(x)
                if c != 1 or not fs:
                    fs.insert(0, z3.RealVal(str(c)) if (den or self.allreal) else z3.IntVal(int(c)))
                fs = self.unify(fs)
                p = fs[0]
                for f in fs[1:]:
                    p = p * f
                parts.append(p)
            parts = self.unify(parts)
            r = parts[0]
            for p in parts[1:]:
                r = r + p
            return r
        if op == 'par':
            return self.tr(t.args[0])
        if op == 'app' or op in tm.BINDERS and op != 'ex':
            if op in tm.BINDERS:
                c = z3.Const('%s@%d' % (op, t.id), self.sort(t.sort))
                self.vars[t] = c
                return c
            if not t.args or self.ack:
                c = z3.Const('%s@%d' % (t.val, t.id), self.sort(t.sort))
                self.ackapps.setdefault((t.val, len(t.args)), []).append(t)
                self.vars[t] = c
                return c
            args = [self.tr(a) for a in t.args]
            dom = [self.sort(a.sort) for a in t.args]
            args = [z3.ToReal(x) if d == z3.RealSort() and x.sort() == z3.IntSort() else x
                    for x, d in zip(args, dom)]
            # an integer-valued polynomial with fractional coefficients
            args = [z3.ToInt(x) if d == z3.IntSort() and x.sort() == z3.RealSort() else x for x, d in zip(args, dom)]
            key = (t.val, tuple(str(d) for d in dom), t.sort)
            if key not in self.funs:
                self.funs[key] = z3.Function('%s/%s' % (t.val, '_'.join(key[1])), *dom, self.sort(t.sort))
            r = self.funs[key](*args)
            self.vars[t] = r
            return r
        if op == 'eq0':
            return self.tr(t.args[0]) == 0
        if op == 'le0':
            return self.tr(t.args[0]) <= 0
        if op == 'lt0':
            return self.tr(t.args[0]) < 0
        if op == 'eq':
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if op == 'not':
            return z3.Not(self.tr(t.args[0]))
        if op == 'and':
            return z3.And(*[self.tr(a) for a in t.args])
        if op == 'or':
            return z3.Or(*[self.tr(a) for a in t.args])
        if op == 'ite':
            c, a, b = [self.tr(x) for x in t.args]
            a, b = self.unify([a, b])
            return z3.If(c, a, b)
        if op == 'ex':
            c = z3.Const('ex@%d' % t.id, z3.BoolSort())
            return c
        raise AssertionError(op)

    def inv(self, a):
        key = ('inv', a)
        r = self.memo.get(key)
        if r is None:
            r = z3.Const('inv@%d' % a.id, z3.RealSort())
            self.memo[key] = r
            x = self.tr(a)
            x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
            self.side.append(z3.Or(x == 0, r * x == 1))
        return r

    def unify(self, xs):
        if any(x.sort() == z3.RealSort() for x in xs) and any(x.sort() == z3.IntSort() for x in xs):
            return [z3.ToReal(x) if x.sort() == z3.IntSort() else x for x in xs]
        return xs


def sat_check(clauses, lemmas, timeout, ack=False, seed=0):
    tr = Z3Tr(ackermann=ack)
    fs = [tr.tr(c) for c in clauses]
    for l in lemmas:
        if isinstance(l, tuple):
            if l[0] == 'sq':
                x = tr.tr(l[1])
                y = tr.unify([tr.tr(l[2]), z3.RealVal(0)])[0]
                fs.append(z3.Or(y < 0, x * x == y))
        else:
            fs.append(tr.tr(l))
    if ack:
        done = set()
        for key, apps in list(tr.ackapps.items()):
            apps = sorted(set(apps), key=lambda t: t.id)
            if len(apps) > 40:
                apps = apps[:40]
            for i, a in enumerate(apps):
                for b in apps[:i]:
                    c = and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
                    if c is FALSE:
                        continue
                    if (a, b) in done:
                        continue
                    done.add((a, b))
                    fs.append(z3.Implies(tr.tr(c), tr.tr(eq(a, b))))
    fs.extend(tr.side)
    s = z3.Solver() if not ack else z3.SolverFor('QF_UFNIRA') if False else z3.Solver()
    s.set('timeout', int(timeout) * 4)
    s.set('rlimit', int(timeout) * 2500)
    if seed:
        s.set('random_seed', seed)
    s.add(*fs)
    t0 = time.time()
    r = s.check()
    STATS['z3_s'] += time.time() - t0
    STATS['queries'] += 1
    return r, s, tr


def nlsat_check(clauses, lemmas, timeout):
    """all-real, Ackermannised relaxation: unsat here implies unsat"""
    tr = Z3Tr(ackermann=True, allreal=True)
    fs = [tr.tr(c) for c in clauses]
    for l in lemmas:
        if isinstance(l, tuple):
            if l[0] == 'sq':
                x = tr.tr(l[1])
                fs.append(z3.Or(tr.tr(l[2]) < 0, x * x == tr.tr(l[2])))
        else:
            fs.append(tr.tr(l))
    for key, apps in list(tr.ackapps.items()):
        apps = sorted(set(apps), key=lambda t: t.id)[:30]
        for i, a in enumerate(apps):
            for b in apps[:i]:
                c = and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
                if c is not FALSE:
                    fs.append(z3.Implies(tr.tr(c), tr.tr(eq(a, b))))
    fs.extend(tr.side)
    if any(str(x).startswith('U_') for x in tr.sorts.values()):
        s = z3.Solver()
    else:
        s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'elim-uncnstr',
                    'tseitin-cnf', 'qfnra-nlsat').solver() if False else z3.SolverFor('QF_NRA')
    s.set('timeout', int(timeout) * 4)
    s.set('rlimit', int(timeout) * 2500)
    s.add(*fs)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['z3_s'] += time.time() - t0
    STATS['queries'] += 1
    return r, s, tr


def relevant(facts, goal):
    return facts


LAST_MODEL = [None]
_vars = {}


def leaves(t):
    r = _vars.get(t)
    if r is None:
        r = frozenset([t]) if t.op in ('var', 'app') and not t.args else \
            frozenset().union(*[leaves(a) for a in t.args if isinstance(a, tm.T)])
        _vars[t] = r
    return r


def simple(t):
    return not any(x.op in ('ex', 'sum', 'lam', 'vmax', 'par', 'app') and x.args for x in subterms(t))


def fast(facts, goal):
    """the goal from the facts about its own variables only (a sound weakening of the query)"""
    if not simple(goal):
        return False
    vs = leaves(goal)
    if len(vs) > 8:
        return False
    fs = [f for f in facts if f.sort == 'Bool' and leaves(f) <= vs and simple(f)]
    r, s, tr = sat_check([not_(goal)] + fs, [], 150)
    if r == z3.unsat:
        STATS['z3'] += 1
        return True
    return False


def prove(facts, goal, depth=0, timeout=3000, want_model=False, effort=2):
    """True iff  facts |- goal  was established"""
    if goal is TRUE:
        STATS['simplifier'] += 1
        return True
    if depth > 4:
        return False
    fset = set(facts)
    if goal in fset:
        return True
    if FALSE in fset:
        return True
    key = (frozenset(f.id for f in fset), goal.id, effort)
    r = _cache.get(key)
    if r is not None and (r or not want_model):
        return r
    ok = _prove(list(facts), goal, depth, timeout, want_model, effort)
    _cache[key] = ok
    return ok


_hasdiv = {}


def bound_div(t):
    """is there a division inside a binder?"""
    r = _hasdiv.get(t.id)
    if r is None:
        if not t.args:
            r = False
        elif t.op in tm.BINDERS:
            r = any(x.op == 'app' and x.val in ('idiv', 'imod') for x in tm.subterms(t.args[-1], into_sums=True)) or \
                any(bound_div(a) for a in t.args)
        else:
            r = any(bound_div(a) for a in t.args)
        _hasdiv[t.id] = r
    return r


def by_rows(t, fset):
    """an equivalent formula in which a quantifier over row-major positions l in [0, a*m), used as l div m and
    l mod m, is one over rows and one over columns; m*(x div m) + x mod m is written x"""
    memo = {}

    def nonneg(x):
        if x.op == 'const':
            return x.val >= 0
        p = poly_of(x)
        if len(p) == 1:
            (m, c), = p.items()
            return c > 0 and all(le(ZERO, y) in fset or le(ONE, y) in fset or lt(ZERO, y) in fset for y, _ in m)
        return False

    def poly(x):
        p = poly_of(x)
        for mono, c in list(p.items()):
            for a, ex in mono:
                if a.op == 'app' and a.val == 'imod' and ex == 1 and a.args[1].op in ('var', 'app'):
                    q = tm.app('idiv', a.args, 'Int')
                    d = {b: n for b, n in mono if b is not a}
                    rest = dict(d)
                    d[q] = d.get(q, 0) + 1
                    d[a.args[1]] = d.get(a.args[1], 0) + 1
                    key = tuple(sorted(d.items(), key=lambda bn: bn[0].id))
                    if p.get(key) == c:
                        one = tm.from_poly({tuple(sorted(rest.items(), key=lambda bn: bn[0].id)): c}, 'Int')
                        return poly(add(sub(sub(x, tm.from_poly({mono: c}, 'Int')), tm.from_poly({key: c}, 'Int')),
                                        mul(one, a.args[0])))
        return x

    def go(x):
        if not x.args:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in tm.BINDERS:
            k = tm.scratch()
            pre = [go(a) for a in x.args[:-1]]
            b = go(tm.open_binder(x, k))
            r = None
            if x.op == 'ex' and pre[0] is ZERO:
                ds = [y for y in tm.subterms(b, into_sums=True)
                      if y.op == 'app' and y.val in ('idiv', 'imod') and y.args[0] is k]
                ms = {y.args[1] for y in ds}
                if len(ms) == 1:
                    m = ms.pop()
                    a = tm.divide_poly(pre[1], m)
                    if a is not None and nonneg(m) and nonneg(a):
                        i, j = tm.scratch(), tm.scratch()
                        mp = {tm.app('idiv', (k, m), 'Int'): i, tm.app('imod', (k, m), 'Int'): j}
                        b2 = tm.replace(b, mp)
                        b2 = subst(b2, {k: add(mul(m, i), j)})
                        r = tm.ex_(ZERO, a, i, tm.ex_(ZERO, m, j, b2))
            if r is None:
                r = tm.bind(x.op, pre, k, b)
        else:
            r = tm.rebuild(x, [go(a) for a in x.args])
            if r.op == 'poly' and r.sort == 'Int':
                r = poly(r)
        memo[x] = r
        return r
    return go(t)


def split_goal(goal):
    if goal.op == 'and':
        return list(goal.args)
    if goal.op == 'not' and goal.args[0].op == 'or':
        return [not_(a) for a in goal.args[0].args]
    return None


def _prove(facts, goal, depth, timeout, want_model, effort):
    if effort >= 2 and depth == 0 and (bound_div(goal) or any(bound_div(f) for f in facts)):
        if _prove1(facts, goal, depth, timeout, False, effort):
            return True
        fs = set(facts)
        f2 = [by_rows(f, fs) if bound_div(f) else f for f in facts]
        g2 = by_rows(goal, fs) if bound_div(goal) else goal
        if g2 is goal and all(a is b for a, b in zip(f2, facts)):
            return _prove1(facts, goal, depth, timeout, want_model, effort)
        return _prove1(f2, g2, depth, timeout, want_model, effort)
    return _prove1(facts, goal, depth, timeout, want_model, effort)


def _prove1(facts, goal, depth, timeout, want_model, effort):
    parts = split_goal(goal)
    if parts:
        return all(prove(facts, g, depth, timeout, want_model, effort) for g in parts)
    if goal.op == 'or' or (goal.op == 'not' and goal.args[0].op == 'and'):
        # assume the negation of all disjuncts but the last: handled by the negated goal
        pass
    # forall goals
    if goal.op == 'not' and goal.args[0].op == 'ex':
        g = goal.args[0]
        s = skolem()
        return prove(facts + [le(g.args[0], s), lt(s, g.args[1])], not_(open_binder(g, s)),
                     depth, timeout, want_model, effort)
    if goal.op == 'eq' and goal.args[0].sort == 'Bool':
        a, b = goal.args
        return prove(facts + [a], b, depth, timeout, want_model, effort) and \
            prove(facts + [b], a, depth, timeout, want_model, effort)
    if goal.op == 'eq' and goal.args[0].op == 'lam' and goal.args[1].op == 'lam':
        a, b = goal.args
        k = skolem()
        return prove(facts, eq(a.args[0], b.args[0]), depth, timeout, want_model, effort) and \
            prove(facts + [le(ZERO, k), lt(k, a.args[0])], eq(open_binder(a, k), open_binder(b, k)),
                  depth, timeout, want_model, effort)
    if goal.op == 'eq' and goal.args[0].op == 'app' and goal.args[1].op == 'app' and \
            goal.args[0].val == goal.args[1].val and len(goal.args[0].args) == len(goal.args[1].args) and \
            not tm.is_num(goal.args[0]):
        if effort >= 1 and all(prove(facts, eq(x, y), depth + 1, timeout, False, effort)
                               for x, y in zip(goal.args[0].args, goal.args[1].args)):
            return True
    if goal.op in ('le', 'lt', 'eq0') or (goal.op == 'not' and goal.args[0].op == 'eq0'):
        if fast(facts, goal):
            return True
    q = Query(facts, goal, depth)
    q.axioms()
    q.instantiate()
    if q.axioms():
        q.instantiate(1)
    level = 0
    lem = q.lemmas(0)
    to = timeout if effort >= 2 else min(timeout, 400)
    first = min(to, 1500)
    r, s, tr = sat_check(q.clauses, lem, first)
    if r == z3.unsat:
        STATS['z3'] += 1
        return True
    if effort == 0:
        return False
    # sums over the same range: compare them term by term
    if goal.op == 'eq0' and depth < 4:
        ss = {}
        rest = {}
        for m, c in poly_of(goal.args[0]).items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum':
                x = m[0][0]
                ss.setdefault((x.args[0], x.args[1]), []).append((x, c))
            else:
                rest[m] = c
        if len(ss) == 1 and not rest:
            (lo, hi), xs = list(ss.items())[0]
            k = skolem()
            body = ZERO
            for x, c in xs:
                body = add(body, mul(num(c), open_binder(x, k)))
            if prove(facts + [le(lo, k), lt(k, hi)], eq(body, ZERO), depth + 1, timeout, False, effort):
                return True
    # equalities with logarithms: exponentiate
    if goal.op == 'eq0':
        lg = [x for x in subterms(goal) if x.op == 'app' and x.val == 'log']
        p = poly_of(goal.args[0])
        if any(len(m) == 1 and m[0][0] in lg for m in p):
            e = tm.exp(goal.args[0])
            if e.op != 'app' and prove(facts, eq(e, ONE), depth + 1, timeout, want_model, effort):
                return True
    has_sum = any(x.op == 'sum' for c in q.clauses for x in subterms(c))
    if has_sum:
        lem2 = q.lemmas(1)
        r, s, tr = sat_check(q.clauses, lem2, to)
        if r == z3.unsat:
            STATS['z3'] += 1
            return True
        lem = lem2
    elif r == z3.unknown and to > first:
        r, s, tr = sat_check(q.clauses, lem, to)
        if r == z3.unsat:
            STATS['z3'] += 1
            return True
    if r != z3.sat or any(x.op == 'par' for c in q.clauses for x in subterms(c)):
        r2, s2, tr2 = nlsat_check(q.clauses, lem, to)
        if r2 == z3.unsat:
            STATS['z3'] += 1
            return True
        if r2 == z3.unknown and r != z3.sat:
            r2, s2, tr2 = sat_check(q.clauses, lem, to, ack=True)
            if r2 == z3.unsat:
                STATS['z3'] += 1
                return True
    if want_model and r == z3.sat:
        m = s.model()
        out = {}
        for t, c in tr.vars.items():
            v = m.eval(c, model_completion=False)
            if z3.is_int_value(v):
                out[t] = v.as_long()
            elif z3.is_rational_value(v):
                out[t] = float(v.as_fraction())
            elif z3.is_algebraic_value(v):
                out[t] = float(v.approx(10).as_fraction())
            elif z3.is_true(v) or z3.is_false(v):
                out[t] = z3.is_true(v)
        LAST_MODEL[0] = out
    return False


def consistent(facts, timeout=2000):
    """vacuity check: are the facts satisfiable (unknown counts as not refuted)"""
    q = Query(list(facts), FALSE, 0)
    q.axioms()
    q.instantiate(2)
    r, _, _ = sat_check(q.clauses, q.lemmas(0), timeout)
    return str(r)

"""Runtime contract cases: registry, runner, replay."""
import inspect
import numpy as np

CLAUSES = [0]       # contract clauses evaluated so far
SEEN = []           # the values the clauses of this instance looked at (for the evidence samples)
CASES = []          # (property, name, fn, weight)


class Fail(AssertionError):
    pass


def case(prop, n=60):
    """n: number of random instances in the quick tier"""
    props = prop if isinstance(prop, (list, tuple)) else [prop]

    def deco(fn):
        for p in props:
            CASES.append((p, fn.__name__, fn, n))
        return fn
    return deco


def need(cond, msg, **ctx):
    CLAUSES[0] += 1
    if not cond:
        raise Fail(msg + ''.join('\n  %s = %s' % (k, short(v)) for k, v in ctx.items()))


def short(v):
    s = repr(v)
    return s if len(s) < 600 else s[:600] + '...'


def raises(exc, f, msg, **ctx):
    CLAUSES[0] += 1
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        raise Fail('%s: expected %s, got %s: %s' % (msg, exc, type(e).__name__, e) +
                   ''.join('\n  %s = %s' % (k, short(v)) for k, v in ctx.items()))
    raise Fail('%s: expected %s, but it returned %s' % (msg, exc, short(r)) +
               ''.join('\n  %s = %s' % (k, short(v)) for k, v in ctx.items()))


def eqv(a, b, msg, tol=0.0, **ctx):
    from .model import same
    CLAUSES[0] += 1
    if len(SEEN) < 2:
        SEEN.append((msg, short(a)[:160]))
    if not same(a, b, tol):
        raise Fail(msg + '\n  got  = %s\n  want = %s' % (short(a), short(b)) +
                   ''.join('\n  %s = %s' % (k, short(v)) for k, v in ctx.items()))


def seed_of(name, base, i):
    h = 2166136261
    for c in name.encode():
        h = (h ^ c) * 16777619 % (1 << 32)
    return [h, int(base), int(i)]

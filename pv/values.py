"""Values of the symbolic interpreter."""
from fractions import Fraction
from . import terms as tm
from .terms import T, num, ZERO, ONE, TRUE, FALSE


class Unsupported(Exception):
    """the code left the subset of Python / numpy that the verifier understands"""


class PyRaise(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, exc):
        self.exc = exc


class PathDead(Exception):
    """the current path is infeasible"""


class ExcVal:
    def __init__(self, cls, args):
        self.cls, self.args = cls, args

    def __repr__(self):
        return '%s(%s)' % (getattr(self.cls, '__name__', self.cls), ', '.join(map(str, self.args)))


class S:
    """symbolic scalar: kind 'i' int, 'f' float, 'b' bool"""
    __slots__ = ('t', 'kind', 'np')

    def __init__(self, t, kind=None, np=False):
        assert isinstance(t, T), t
        self.t = t
        self.kind = kind or {'Int': 'i', 'Real': 'f', 'Bool': 'b'}[t.sort]
        self.np = np

    def __repr__(self):
        return 'S(%r)' % (self.t,)


class Block:
    """an opaque group of array dimensions (a shape of any rank), indexed by its row-major linear index"""

    def __init__(self, term):
        self.term = term

    @property
    def size(self):
        return tm.app('size', (self.term,), 'Int')

    @property
    def rank(self):
        return tm.app('rank', (self.term,), 'Int')

    def __eq__(self, o):
        return isinstance(o, Block) and o.term is self.term

    def __hash__(self):
        return hash(self.term)

    def __repr__(self):
        return '<%s>' % self.term


def dsize(d):
    return d.size if isinstance(d, Block) else d


# --- sequence segments
class One:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Rep:
    """n elements fn(0), ..., fn(n-1)"""
    __slots__ = ('n', 'fn', 'cond')

    def __init__(self, n, fn, cond=None):
        self.n, self.fn, self.cond = n, fn, cond     # cond(k) -> Bool term: element k is present


class Many:
    """for k < n: the segments fn(k), spliced"""
    __slots__ = ('n', 'fn')

    def __init__(self, n, fn):
        self.n, self.fn = n, fn


class BSeg:
    """one element per dimension of a block: fn(the dimension) or, with lin, fn(coordinate of lin)"""
    __slots__ = ('block', 'lin', 'fn', 'tag')

    def __init__(self, block, lin=None, fn=None, tag=None):
        self.block, self.lin, self.fn, self.tag = block, lin, fn, tag


class Hole:
    """unknown prefix of a sequence during the discovery of a loop"""
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i


class STup:
    """tuple of symbolic length; sub: an instance of a subclass, such as a named tuple"""

    def __init__(self, segs, sub=False):
        self.segs = tuple(segs)
        self.sub = sub

    def __repr__(self):
        return 'STup(%d segs)' % len(self.segs)


class Poison:
    """a value that may not be used (left over from a loop whose last value is not needed)"""

    def __init__(self, why, force=None):
        self.why = why
        self.force = force

    def __repr__(self):
        return '<poison %s>' % self.why


class SStr:
    """string with symbolic parts: str | ('t', term) | ('i', int term) | ('bj', sep, block, lin, parts)"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                out.extend(p.parts)
            else:
                out.append(p)
        res = []
        for p in out:
            if p == '':
                continue
            if isinstance(p, tuple) and p[0] == 'i' and p[1].op == 'const':
                p = str(int(p[1].val))
            if isinstance(p, str) and res and isinstance(res[-1], str):
                res[-1] += p
            else:
                res.append(p)
        self.parts = tuple(res)

    def __repr__(self):
        return 'SStr%r' % (self.parts,)


class Opaque:
    """a value of a dependency, known by a tag and fields (a dict)"""

    def __init__(self, tag, **f):
        self.tag = tag
        self.__dict__.update(f)

    def __repr__(self):
        return '<%s>' % self.tag


class SymVal:
    """abstract folded value of an abstract pattern"""

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Val(%s)' % self.t


# --- heap values; each has save() / restore()
class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()


class Heap:
    pass


class Obj(Heap):
    def __init__(self, cx, cls):
        self.cls = cls
        self.attrs = {}
        cx.heap.append(self)

    def save(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = dict(s)

    def __repr__(self):
        return '<%s object>' % getattr(self.cls, 'name', self.cls)


class Frame(Heap):
    def __init__(self, cx, parent, glob, cls=None):
        self.vars = {}
        self.parent = parent
        self.glob = glob
        self.cls = cls
        self.nonlocals = {}
        self.names = None
        cx.heap.append(self)

    def save(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars = dict(s)


class PList(Heap):
    def __init__(self, cx, segs=()):
        self.segs = tuple(segs)
        cx.heap.append(self)

    def save(self):
        return self.segs

    def restore(self, s):
        self.segs = s

    def __repr__(self):
        return 'PList(%s)' % (', '.join(repr(s.v) if isinstance(s, One) else type(s).__name__
                                        for s in self.segs))


class DOne:
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k, self.v = k, v


class DRep:
    """n entries key(k) -> val(k); keys are symbolic strings"""
    __slots__ = ('n', 'key', 'val')

    def __init__(self, n, key, val):
        self.n, self.key, self.val = n, key, val


class PDict(Heap):
    def __init__(self, cx, segs=(), ordered=False, cls=None):
        self.segs = tuple(segs)
        self.ordered = ordered
        cx.heap.append(self)

    def save(self):
        return self.segs

    def restore(self, s):
        self.segs = s

    def __repr__(self):
        return 'PDict(%s)' % (', '.join('%r: %r' % (s.k, s.v) if isinstance(s, DOne) else type(s).__name__
                                        for s in self.segs))


class Cell(Heap):
    """storage of an array; content: root index tuple -> term (or value for kind 'O'/'S')"""
    n = 0

    def __init__(self, cx, content, kind, alias_of=None, name=None):
        Cell.n += 1
        self.content = content
        self.kind = kind
        self.alias_of = alias_of
        self.name = name
        cx.heap.append(self)

    def save(self):
        return self.content

    def restore(self, s):
        self.content = s

    def storage(self):
        c = self
        while c.alias_of is not None:
            c = c.alias_of
        return c


class Arr:
    """ndarray: dims (Int terms or Blocks), a cell, and the map from its indices to those of the cell"""

    def __init__(self, shape, cell, imap=None, kind=None, struct=None, alg=None):
        self.shape = tuple(shape)
        self.cell = cell
        self.imap = imap
        self.kind = kind or cell.kind
        self.struct = struct
        self.alg = alg
        self.concat = None
        self.suffix = None

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, idx):
        if self.imap is not None:
            idx = self.imap(idx)
        return self.cell.content(idx)

    def snap(self):
        """an immutable copy of the content function"""
        c, m = self.cell.content, self.imap
        if m is None:
            return c
        return lambda idx: c(m(idx))

    def __repr__(self):
        return 'Arr(%s, %s)' % (', '.join(map(str, self.shape)), self.kind)


# --- callables and types
class Cls:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return "<class '%s'>" % self.name


class Func:
    def __init__(self, node, frame, defaults, kwdefaults, name, cls=None):
        self.node, self.frame, self.defaults, self.kwdefaults = node, frame, defaults, kwdefaults
        self.name, self.cls = name, cls
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.name


class Bound:
    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Bi:
    """builtin implemented by the engine: fn(interp, args, kwargs)"""

    def __init__(self, name, fn, attrs=None):
        self.name, self.fn = name, fn
        self.attrs = attrs or {}

    def __repr__(self):
        return '<builtin %s>' % self.name


class Static:
    def __init__(self, f, kind):
        self.f, self.kind = f, kind        # 'class', 'static', 'property'


class Mod:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns

    def __repr__(self):
        return '<module %s>' % self.name


class PRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step     # lo, hi: Int terms


class Iter:
    keys = False          # a view of the keys of a dictionary
    """an iterable given by segments (generators, zip, product, dict views, ...)"""

    def __init__(self, segs):
        self.segs = tuple(segs)


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class ItemProd:
    """index tuple of itertools.product over ranges; segs: One(S) or BSeg(block, lin)"""

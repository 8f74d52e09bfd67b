"""The world of the interpreted program: builtins, modules, attributes, items."""
import ast
import os
import string
from fractions import Fraction
from . import terms as tm
from .terms import (T, TRUE, FALSE, ZERO, ONE, num, add, sub, mul, neg, le, lt, eq, ne, not_, and_, or_, ite,
                    subst, fv, ex_, all_, sum_, lam_, app, fresh)
from .values import *
from .npm import Np, INF, SORT
from . import npfun, npfun2
from .npfun import FUN, METH

REPO = os.environ.get('PARAGAMI_REPO', '/repo')
_ast_cache = {}

NDARRAY = Opaque('type', name='ndarray')
ODICT = Opaque('type', name='OrderedDict')
NPBOOL = Opaque('type', name='bool_')
SPARSE = Opaque('type', name='sparse')
ABC = Opaque('ABC')
FUNCTION = Opaque('type', name='function')


def bi(name):
    def deco(f):
        return Bi(name, lambda I, args, kw: f(I, *args, **kw))
    return deco


class World:
    opaques = property(lambda self: OPAQUE)

    def __init__(self, src_override=None):
        self.np = Np()
        self.mods = {}
        self.ext = {}
        self.src_override = src_override or {}
        self.builtins = dict(BUILTINS)
        self.loaded_files = set()
        self.tracing = False
        self.vjps, self.jvps = {}, {}          # derivative rules registered while the modules load
        self.called = set()
        self.events = []

    # ------------------------------------------------------------ modules
    def module(self, I, name):
        if name in self.mods:
            return self.mods[name]
        if name == 'paragami' or name.startswith('paragami.'):
            return self.load(I, name)
        return self.external(name)

    def load(self, I, name):
        if name == 'paragami._version':
            m = Mod(name, {'get_versions': Bi('get_versions', lambda I, a, k: PDict(I.cx, [DOne('version', '0')]))})
            self.mods[name] = m
            return m
        parts = name.split('.')
        path = os.path.join(REPO, *parts)
        if os.path.isdir(path):
            fn, pkg = os.path.join(path, '__init__.py'), True
        else:
            fn, pkg = path + '.py', False
        if name not in _ast_cache:
            try:
                src = self.src_override.get(name) or open(fn).read()
            except OSError:
                I.raise_(ImportError, name)
            _ast_cache[name] = ast.parse(src, fn)
        tree = _ast_cache[name]
        m = Mod(name, {'__name__': name})
        m.ispkg = pkg
        self.mods[name] = m
        if len(parts) > 1:
            par = '.'.join(parts[:-1])
            if par not in self.mods:
                pm = Mod(par, {'__name__': par})
                pm.ispkg = True
                self.mods[par] = pm            # the package itself is only initialised when asked for
            self.mods[par].ns[parts[-1]] = m
        fr = Frame(I.cx, None, m)
        fr.is_mod = True
        fr.clsname = None
        self.loaded_files.add(fn)
        for s in tree.body:
            I.exec(s, fr)
        return m

    def import_from(self, I, base, name):
        m = self.module(I, base)
        if name == '*':
            raise Unsupported('import *')
        if name in m.ns:
            return m.ns[name]
        if base == 'paragami' or base.startswith('paragami.'):
            sub_ = base + '.' + name
            if os.path.exists(os.path.join(REPO, *sub_.split('.')) + '.py'):
                return self.load(I, sub_)
            I.raise_(ImportError, name)
        return self.getattr(I, m, name)

    def external(self, name):
        if name in self.ext:
            return self.ext[name]
        top = name.split('.')[0]
        if name in ALIAS:
            m = self.external(ALIAS[name])
            self.ext[name] = m
            return m
        if name not in EXT:
            if top not in EXT_TOPS:
                raise Unsupported('module %s' % name)
            m = Mod(name, {})
        else:
            m = Mod(name, dict(EXT[name]))
        m.external = True
        self.ext[name] = m
        return m

    # ------------------------------------------------------------ attributes
    def getattr(self, I, o, name):
        if isinstance(o, Poison):
            raise Unsupported('use of %s' % o.why)
        if isinstance(o, Mod):
            if name in o.ns:
                return o.ns[name]
            if getattr(o, 'external', False):
                return self.ext_attr(I, o, name)
            I.raise_(AttributeError, "module %s has no attribute %s" % (o.name, name))
        if isinstance(o, Obj):
            return self.obj_attr(I, o, name)
        if isinstance(o, Cls):
            if name == '__name__':
                return o.name
            if name == '__qualname__':
                return o.name
            if name == '__module__':
                return o.module
            v, c = o.lookup(name)
            if c is None:
                I.raise_(AttributeError, name)
            if isinstance(v, Static):
                if v.kind == 'class':
                    return Bound(v.f, o)
                if v.kind == 'static':
                    return v.f
                return v
            return v
        if isinstance(o, Opaque):
            return self.opaque_attr(I, o, name)
        if isinstance(o, Func):
            if name == '__name__':
                return o.name
            if name in o.attrs:
                return o.attrs[name]
            if name == '__doc__':
                return None
            I.raise_(AttributeError, name)
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self_
            if name == '__func__':
                return o.f
            return self.getattr(I, o.f, name)
        if isinstance(o, Arr):
            return self.arr_attr(I, o, name)
        if isinstance(o, (PList, PDict, tuple, STup, str, SStr, Iter)):
            return self.coll_attr(I, o, name)
        if isinstance(o, (S, int, float)):
            return self.scalar_attr(I, o, name)
        if isinstance(o, Static) and o.kind == 'property' and name == 'setter':
            def setter(I2, args, kw):
                p = Static(o.f, 'property')
                p.setter = args[0]
                return p
            return Bi('setter', setter)
        if isinstance(o, Bi):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if o.name == 'numpy.add' and name == 'at':
                def add_at(I2, args, kw):
                    if len(args) != 3 or kw or not isinstance(args[0], Arr):
                        raise Unsupported('numpy.add.at of these arguments')
                    self.np.add_at(I2, *args)
                return Bi('numpy.add.at', add_at)
        if isinstance(o, ExcVal):
            if name == 'args':
                return tuple(o.args)
        if isinstance(o, type) and name == '__name__':
            return o.__name__
        if o is None or isinstance(o, (bool,)):
            I.raise_(AttributeError, "no attribute '%s'" % name)
        if isinstance(o, SymVal):
            return self.symval_attr(I, o, name)
        if isinstance(o, type):
            raise Unsupported('%s.%s' % (o.__name__, name))
        raise Unsupported('attribute %s of %r' % (name, o))

    def obj_attr(self, I, o, name):
        v, c = o.cls.lookup(name)
        if isinstance(v, Static) and v.kind == 'property':
            return I.call(Bound(v.f, o), [], {})
        if name in o.attrs:
            return o.attrs[name]
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            raise Unsupported('__dict__')
        if c is None:
            g, gc = o.cls.lookup('__getattr__')
            if g is not None:
                return I.call(Bound(g, o), [name], {})
            I.raise_(AttributeError, "'%s' object has no attribute '%s'" % (o.cls.name, name))
        if isinstance(v, Static):
            return Bound(v.f, o.cls) if v.kind == 'class' else v.f
        if isinstance(v, Func) or isinstance(v, Bi) and getattr(v, 'method', False):
            return Bound(v, o)
        return v

    def arr_attr(self, I, o, name):
        if name == 'shape':
            return self.np.shape_value(I, o)
        if name == 'ndim':
            return I.mkint(self.np.ndim(I, o))
        if name == 'size':
            return I.mkint(self.np.size(I, o))
        if name == 'T':
            return self.np.transpose(I, o)
        if name == 'dtype':
            return Opaque('dtype', kind=o.kind)
        if name == 'real':
            return o
        if name in METH:
            return self.np.method(I, o, name)
        if name in ('toarray', 'todense', 'tocsc', 'tocsr', 'tocoo', 'items', 'keys', 'append', 'values'):
            I.raise_(AttributeError, "'numpy.ndarray' object has no attribute '%s'" % name)
        raise Unsupported('ndarray.%s' % name)

    def scalar_attr(self, I, o, name):
        # attributes of numpy scalars
        isnp = isinstance(o, S) and True
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        if name == 'size':
            return 1
        if name in ('any', 'all', 'copy', 'item', 'real', 'sum', 'max', 'min', 'conj', 'T'):
            if name in ('real', 'T'):
                return o
            return Bi(name, lambda I2, a, k: o)
        if name in ('reshape', 'flatten', 'ravel', 'astype'):
            return self.np.method(I, self.np.asarr(I, o), name)
        if name == 'dtype':
            return Opaque('dtype', kind=I.term(o)[1])
        if name == 'is_integer':
            raise Unsupported('is_integer')
        I.raise_(AttributeError, "no attribute '%s'" % name)

    # ------------------------------------------------------------ collections
    def coll_attr(self, I, o, name):
        if isinstance(o, PList):
            def append(I, v):
                o.segs = o.segs + (One(v),)
            def extend(I, v):
                o.segs = o.segs + tuple(I.iter_segs(v))
            def pop(I, i=-1):
                l = list(o.segs)
                if not l:
                    I.raise_(IndexError, 'pop from empty list')
                if not isinstance(i, int) or not all(isinstance(s, One) for s in (l if i != -1 else l[-1:])):
                    raise Unsupported('pop')
                x = l.pop(i)
                o.segs = tuple(l)
                return x.v
            def insert(I, i, v):
                if not all(isinstance(s, One) for s in o.segs) and i != 0:
                    raise Unsupported('insert')
                l = list(o.segs)
                l.insert(i, One(v))
                o.segs = tuple(l)
            def copy(I):
                return PList(I.cx, o.segs)
            def index(I, v):
                for j, s in enumerate(o.segs):
                    if not isinstance(s, One):
                        raise Unsupported('index')
                    if I.cx.decide(I.value_eq(s.v, v)):
                        return j
                I.raise_(ValueError, 'not in list')
            def reverse(I):
                o.segs = tuple(reversed(o.segs))
                if not all(isinstance(s, One) for s in o.segs):
                    raise Unsupported('reverse')
            def clear(I):
                o.segs = ()
            def remove(I, v):
                l = list(o.segs)
                for j, s in enumerate(l):
                    if not isinstance(s, One):
                        raise Unsupported('remove')
                    if I.cx.decide(I.value_eq(s.v, v)):
                        del l[j]
                        o.segs = tuple(l)
                        return
                I.raise_(ValueError, 'not in list')
            f = {'append': append, 'extend': extend, 'pop': pop, 'insert': insert, 'copy': copy, 'index': index,
                 'reverse': reverse, 'clear': clear, 'remove': remove}.get(name)
        elif isinstance(o, PDict):
            def keys(I):
                r = Iter(I.iter_segs(o))
                r.keys = True
                return r
            def items(I):
                return Iter([One((s.k, s.v)) if isinstance(s, DOne) else s if isinstance(s, Hole) else
                             Rep(s.n, lambda k, s=s: (s.key(k), s.val(k))) for s in o.segs])
            def values(I):
                return Iter([One(s.v) if isinstance(s, DOne) else s if isinstance(s, Hole) else Rep(s.n, s.val)
                             for s in o.segs])
            def get(I, k, d=None):
                v, present = I.dict_find(o, k)
                if present is TRUE:
                    return v
                if present is FALSE:
                    return d
                if I.cx.decide(present):
                    return I.dict_get(o, k)
                return d
            def pop(I, k, *d):
                v, present = I.dict_find(o, k)
                if not I.cx.decide(present):
                    if d:
                        return d[0]
                    I.raise_(KeyError, k)
                v = I.dict_get(o, k)
                I.dict_del(o, k)
                return v
            def update(I, other=None, **kw):
                if isinstance(other, PDict):
                    for s in other.segs:
                        if not isinstance(s, DOne):
                            if not o.segs:
                                o.segs = (s,)
                                continue
                            raise Unsupported('update')
                        I.dict_set(o, s.k, s.v)
                elif other is not None:
                    raise Unsupported('update')
                for k, v in kw.items():
                    I.dict_set(o, k, v)
            def copy(I):
                return PDict(I.cx, o.segs, o.ordered)
            def setdefault(I, k, d=None):
                v, present = I.dict_find(o, k)
                if I.cx.decide(present):
                    return I.dict_get(o, k)
                I.dict_set(o, k, d)
                return d
            def move_to_end(I, k, last=True):
                v = I.dict_get(o, k)
                I.dict_del(o, k)
                if last:
                    I.dict_set(o, k, v)
                else:
                    o.segs = (DOne(k, v),) + o.segs
            def clear(I):
                o.segs = ()
            f = {'keys': keys, 'items': items, 'values': values, 'get': get, 'pop': pop, 'update': update,
                 'copy': copy, 'setdefault': setdefault, 'clear': clear,
                 'move_to_end': move_to_end if o.ordered else None}.get(name)
        elif isinstance(o, (tuple, STup)):
            def index(I, v):
                for j, s in enumerate(I.segs_of(o)):
                    if not isinstance(s, One):
                        raise Unsupported('index')
                    if I.cx.decide(I.value_eq(s.v, v)):
                        return j
                I.raise_(ValueError, 'not in tuple')
            def count(I, v):
                t = ZERO
                for s in I.segs_of(o):
                    if not isinstance(s, One):
                        raise Unsupported('count')
                    t = add(t, ite(I.value_eq(s.v, v), ONE, ZERO))
                return I.mkint(t)
            f = {'index': index, 'count': count}.get(name)
        elif isinstance(o, (str, SStr)):
            f = self.str_method(I, o, name)
        else:
            f = None
        if f is None:
            known = {PList: list, PDict: dict, tuple: tuple, STup: tuple, str: str, SStr: str}
            py = known.get(type(o))
            if py is not None and not hasattr(py, name) and not name.startswith('__'):
                I.raise_(AttributeError, "'%s' object has no attribute '%s'" % (py.__name__, name))
            raise Unsupported('attribute %s of %r' % (name, o))
        return Bi(name, lambda I2, a, k: f(I2, *a, **k))

    def str_method(self, I, o, name):
        def join(I, v):
            if isinstance(v, Iter) or isinstance(v, (PList, tuple, STup)):
                segs = I.norm_segs(I.iter_segs(v))
            else:
                segs = I.norm_segs(I.iter_segs(v))
            parts = []
            for n, s in enumerate(segs):
                if n:
                    parts.append(o)
                if isinstance(s, One):
                    if not isinstance(s.v, (str, SStr)):
                        I.raise_(TypeError, 'sequence item: expected str instance')
                    parts.append(s.v)
                elif isinstance(s, BSeg):
                    x = s.fn(S(tm.var('coord', 'Int'), 'i')) if s.fn else None
                    if not isinstance(x, (str, SStr)):
                        raise Unsupported('join of a symbolic sequence')
                    px = x.parts if isinstance(x, SStr) else (x,)
                    if s.lin is None:
                        raise Unsupported('join over the dimensions of a shape')
                    parts.append(SStr([('bj', o, s.block, s.lin, px)]))
                else:
                    parts.append(SStr([('o', 'join')]))
            if not parts:
                return ''
            return I.mkstr(parts)

        def fmt(I, *args, **kw):
            if not isinstance(o, str):
                return SStr([('o', 'format')])
            parts = []
            auto = 0
            for lit, field, spec, conv in string.Formatter().parse(o):
                if lit:
                    parts.append(lit)
                if field is None:
                    continue
                if field == '':
                    if auto >= len(args):
                        I.raise_(IndexError, 'Replacement index out of range')
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    if int(field) >= len(args):
                        I.raise_(IndexError, 'Replacement index out of range')
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    if field.isidentifier():
                        I.raise_(KeyError, field)
                    raise Unsupported('format field %s' % field)
                parts.append(self.format_value(I, v, spec or '', {'r': 114, 's': 115, 'a': 97}.get(conv, -1)))
            return I.mkstr(parts)
        if name == 'join':
            return join
        if name == 'format':
            return fmt
        if isinstance(o, str) and name in ('startswith', 'endswith', 'split', 'strip', 'lower', 'upper', 'replace',
                                           'rstrip', 'lstrip', 'isdigit', 'find', 'encode', 'title'):
            def g(I, *args):
                if not all(isinstance(x, (str, int)) or isinstance(x, tuple) for x in args):
                    raise Unsupported('str.%s' % name)
                r = getattr(o, name)(*args)
                return PList(I.cx, [One(x) for x in r]) if isinstance(r, list) else r
            return g
        return None

    def format_value(self, I, x, spec, conversion):
        if isinstance(x, (str, SStr)) and spec == '' and conversion != 114:
            return x
        if isinstance(x, (int, float)) or x is None:
            try:
                s = repr(x) if conversion == 114 else str(x)
                return format(x, spec) if spec and conversion == -1 else s
            except (ValueError, TypeError) as e:
                I.raise_(type(e), str(e))
        if isinstance(x, S) and x.t.sort == 'Int' and x.kind == 'i' and spec == '':
            return SStr([('i', x.t)])
        if spec == '' and conversion != 114:
            return self.to_str(I, x)
        return SStr([('o', 'format')])

    def to_str(self, I, x):
        if isinstance(x, (str, SStr)):
            return x
        if isinstance(x, (bool, int, float)) or x is None:
            return str(x)
        if isinstance(x, S) and x.t.sort == 'Int' and x.kind == 'i':
            return SStr([('i', x.t)])
        if isinstance(x, Obj):
            f, c = x.cls.lookup('__str__')
            if f is None:
                f, c = x.cls.lookup('__repr__')
            if f is not None:
                r = I.call(Bound(f, x), [], {})
                if not isinstance(r, (str, SStr)):
                    I.raise_(TypeError, '__str__ returned non-string')
                return r
        if isinstance(x, Opaque) and (x.tag, 'str') in OPAQUE:
            return OPAQUE[(x.tag, 'str')](I, x)
        return SStr([('o', 'str')])

    # ------------------------------------------------------------ items
    def getitem(self, I, o, i):
        if isinstance(o, Poison) or isinstance(i, Poison):
            raise Unsupported('use of %s' % (o if isinstance(o, Poison) else i).why)
        if isinstance(o, PDict):
            return I.dict_get(o, i)
        if isinstance(o, Arr):
            return self.np.getitem(I, o, i)
        if isinstance(o, (tuple, PList, STup, Iter)):
            return self.seq_item(I, o, i)
        if isinstance(o, Obj):
            f, c = o.cls.lookup('__getitem__')
            if f is None:
                I.raise_(TypeError, 'object is not subscriptable')
            return I.call(Bound(f, o), [i], {})
        if isinstance(o, str):
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError:
                    I.raise_(IndexError, 'string index out of range')
            if isinstance(i, Slice) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                return o[i.lo:i.hi:i.step]
        if isinstance(o, PRange):
            t = self.np.norm_int(I, i, I.length(o))
            return I.mkint(add(o.lo if isinstance(o.lo, T) else num(o.lo), t))
        if isinstance(o, SymVal):
            return self.symval_item(I, o, i)
        if isinstance(o, Opaque):
            return self.opaque_item(I, o, i)
        if o is None or isinstance(o, (int, float, S, Func)):
            if isinstance(o, S) and i in ((), Ellipsis):
                return o
            I.raise_(TypeError, 'object is not subscriptable')
        raise Unsupported('item of %r' % (o,))

    def seq_item(self, I, o, i):
        segs = I.norm_segs(I.segs_of(o))
        if isinstance(i, Slice):
            if all(isinstance(s, One) for s in segs) and \
                    all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                out = segs[i.lo:i.hi:i.step]
            elif i.step is None:
                out = self.slice_segs(I, segs, i)
            else:
                raise Unsupported('slice of a symbolic sequence')
            return PList(I.cx, out) if isinstance(o, PList) else I.mktup(out)
        if isinstance(i, (tuple, str, SStr, float)) or i is None:
            I.raise_(TypeError, 'indices must be integers or slices')
        if isinstance(i, Arr):
            if i.ndim != 0:
                I.raise_(TypeError, 'only integer scalar arrays can be converted to a scalar index')
        if all(isinstance(s, One) for s in segs):
            n = len(segs)
            if isinstance(i, int):
                if not -n <= i < n:
                    I.raise_(IndexError, 'index out of range')
                return segs[i].v
            t = I.term_i(i)
            t = self.np.norm_int(I, S(t, 'i') if t.op != 'const' else int(t.val), num(n))
            return self.np.pick(I, [s.v for s in segs], t)
        t = I.term_i(i)
        total = add(ZERO, *[I.seglen(s) for s in segs])
        if t.op == 'const' and t.val < 0:
            # from the end
            j = int(-t.val)
            tailn = 0
            for s in reversed(segs):
                if not isinstance(s, One):
                    break
                tailn += 1
                if tailn == j:
                    return s.v
            if isinstance(segs[len(segs) - 1 - tailn], BSeg):
                raise Unsupported('index into a shape')
            t = add(total, t)
            if not I.cx.decide(le(ZERO, t)):
                I.raise_(IndexError, 'index out of range')
        else:
            t = self.np.norm_int(I, S(t, 'i') if t.op != 'const' else int(t.val), total)
        off = ZERO
        for s in segs:
            ln = I.seglen(s)
            inside = lt(t, add(off, ln))
            if I.cx.decide(inside):
                if isinstance(s, One):
                    return s.v
                if isinstance(s, Rep) and s.cond is None:
                    return s.fn(sub(t, off))
                if isinstance(s, Rep):
                    k = tm.scratch()
                    L = lam_(s.n, k, ite(s.cond(k), ONE, ZERO))
                    w = app('SEL', (L, sub(t, off)), 'Int')
                    I.cx.assume(and_(le(ZERO, w), lt(w, s.n), s.cond(w)))
                    return s.fn(w)
                if isinstance(s, BSeg) and s.fn is None and s.lin is None:
                    return S(app('dim', (s.block.term, sub(t, off)), 'Int'), 'i')
                if isinstance(s, Many):
                    return self.many_item(I, s, sub(t, off))
                raise Unsupported('index into a symbolic sequence')
            off = add(off, ln)
        raise PathDead()

    def many_item(self, I, s, t):
        """element t of the spliced segments: found in the segments of some iteration"""
        k = tm.scratch()
        with I.cx.scope([le(ZERO, k), lt(k, s.n)]):
            L = lam_(s.n, k, add(ZERO, *[I.seglen(x) for x in s.fn(k)]))
        q = app('ITER', (L, t), 'Int')
        I.cx.assume(and_(le(ZERO, q), lt(q, s.n)))
        start = I.seglen(Many(q, s.fn))
        segs = I.norm_segs(s.fn(q))
        r = sub(t, start)
        I.cx.assume(and_(le(ZERO, r), lt(r, add(ZERO, *[I.seglen(x) for x in segs]))))
        return self.seq_item(I, I.mktup(segs), S(r, 'i') if r.op != 'const' else int(r.val))

    def slice_segs(self, I, segs, i):
        lo = i.lo if i.lo is not None else 0
        hi = i.hi
        if not isinstance(lo, int) or lo < 0 or not (hi is None or isinstance(hi, int) and hi < 0):
            return self.slice_at(I, segs, i.lo, i.hi)
        segs = list(segs)
        while lo > 0:
            if not segs:
                return ()
            if isinstance(segs[0], One):
                segs.pop(0)
            elif isinstance(segs[0], Rep) and segs[0].cond is None and I.cx.prove(le(ONE, segs[0].n)):
                s = segs[0]
                segs[0] = Rep(sub(s.n, ONE), lambda k, s=s: s.fn(add(k, ONE)))
            else:
                raise Unsupported('slice of a symbolic sequence')
            lo -= 1
        if hi is None:
            return tuple(segs)
        if hi < 0:
            for _ in range(-hi):
                if not segs:
                    return ()
                if isinstance(segs[-1], One):
                    segs.pop()
                elif isinstance(segs[-1], Rep) and segs[-1].cond is None and I.cx.prove(le(ONE, segs[-1].n)):
                    s = segs[-1]
                    segs[-1] = Rep(sub(s.n, ONE), s.fn)
                else:
                    raise Unsupported('slice of a symbolic sequence')
            return tuple(segs)
        raise Unsupported('slice of a symbolic sequence')

    def slice_at(self, I, segs, lo, hi):
        """segs[lo:hi] for any integers"""
        cx = I.cx
        if any(isinstance(s, Rep) and s.cond is not None or not isinstance(s, (One, Rep)) for s in segs):
            raise Unsupported('slice of a symbolic sequence')
        total = add(ZERO, *[I.seglen(s) for s in segs])

        def clamp(v, default):
            if v is None:
                return default
            t = I.term_i(self.np.item(I, v) if isinstance(v, Arr) and not v.shape else v)
            if cx.decide(lt(t, ZERO)):
                t = add(t, total)
                if cx.decide(lt(t, ZERO)):
                    return ZERO
            return t if cx.decide(le(t, total)) else total
        a, b = clamp(lo, ZERO), clamp(hi, total)
        if not cx.prove(le(a, b)) and not cx.decide(lt(a, b)):
            return ()
        left, n = a, sub(b, a)
        out = []
        for s in segs:
            ln = I.seglen(s)
            if left is not ZERO:
                if not (isinstance(s, Rep) and cx.prove(le(left, ln))) and cx.decide(le(ln, left)):
                    left = sub(left, ln)
                    continue
                if isinstance(s, Rep):
                    s = Rep(sub(ln, left), (lambda s, left: lambda k: s.fn(add(k, left)))(s, left))
                    ln = s.n
                left = ZERO
            if isinstance(s, Rep) and cx.prove(le(n, ln)) or not cx.decide(lt(ln, n)):
                if isinstance(s, One) and not cx.decide(lt(ZERO, n)):
                    return tuple(out)
                out.append(s if isinstance(s, One) else Rep(n, s.fn))
                return tuple(out)
            out.append(s)
            n = sub(n, ln)
        raise PathDead()

    def setitem(self, I, o, i, v):
        if isinstance(o, PDict):
            I.dict_set(o, i, v)
        elif isinstance(o, Arr):
            self.np.setitem(I, o, i, v)
        elif isinstance(o, PList):
            if isinstance(i, int) and all(isinstance(s, One) for s in o.segs):
                l = list(o.segs)
                if not -len(l) <= i < len(l):
                    I.raise_(IndexError, 'list assignment index out of range')
                l[i] = One(v)
                o.segs = tuple(l)
                return
            segs = I.norm_segs(o.segs)
            t = I.term_i(i)
            if all(isinstance(s, One) for s in segs):
                t = self.np.norm_int(I, i, num(len(segs)))
                o.segs = tuple(One(I.vite(eq(t, num(j)), v, s.v)) for j, s in enumerate(segs))
                return
            if len(segs) == 1 and isinstance(segs[0], Rep) and segs[0].cond is None:
                s = segs[0]
                t = self.np.norm_int(I, i, s.n)

                def fn(k):
                    if I.cx.prove(eq(k, t)):
                        return v
                    if I.cx.prove(ne(k, t)):
                        return s.fn(k)
                    return I.vite(eq(k, t), v, s.fn(k))
                o.segs = (Rep(s.n, fn),)
                return
            raise Unsupported('list store')
        elif isinstance(o, Obj):
            f, c = o.cls.lookup('__setitem__')
            if f is None:
                I.raise_(TypeError, 'does not support item assignment')
            I.call(Bound(f, o), [i, v], {})
        elif isinstance(o, (tuple, STup, str)) or o is None:
            I.raise_(TypeError, 'does not support item assignment')
        elif isinstance(o, Opaque):
            self.opaque_setitem(I, o, i, v)
        else:
            raise Unsupported('item store on %r' % (o,))

    # ------------------------------------------------------------ equality helpers
    def shape_term(self, I, segs):
        """a tuple of dimensions as a term of sort U:Shape"""
        if not any(isinstance(s, BSeg) for s in segs):
            return None
        if len(segs) == 1 and isinstance(segs[0], BSeg) and segs[0].lin is None and segs[0].fn is None:
            return segs[0].block.term
        out = []
        for s in segs:
            if isinstance(s, One):
                try:
                    out.append(I.term_i(s.v))
                except Unsupported:
                    return None
            elif isinstance(s, BSeg) and s.lin is None and s.fn is None:
                out.append(s.block.term)
            else:
                return None
        return app('shp', tuple(out), 'U:Shape')

    def dict_eq_general(self, I, a, b, same_keys, vals_eq):
        return and_(same_keys, vals_eq)

    def to_float(self, I, x):
        if isinstance(x, (bool, int)):
            return float(x)
        if isinstance(x, float):
            return x
        if isinstance(x, str):
            try:
                return float(x)
            except ValueError as e:
                I.raise_(ValueError, str(e))
        if isinstance(x, S):
            t = I.numterm(x)
            return S(t, 'f') if t.op != 'const' else I.wrap(t, 'f')
        if isinstance(x, Arr):
            if not I.cx.decide(eq(self.np.size(I, x), ONE)):
                I.raise_(TypeError, 'only length-1 arrays can be converted')
            return self.to_float(I, self.np.item(I, x))
        if x is None or isinstance(x, (tuple, PList, PDict, Obj)):
            I.raise_(TypeError, 'float() argument')
        raise Unsupported('float(%r)' % (x,))

    def call_type(self, I, t, args, kw):
        if kw:
            if t is dict and not args:
                return PDict(I.cx, [DOne(k, v) for k, v in kw.items()])
            raise Unsupported('keywords of %s' % t.__name__)
        if t is float:
            return self.to_float(I, args[0]) if args else 0.0
        if t is int:
            if not args:
                return 0
            x = args[0]
            if isinstance(x, (bool, int)):
                return int(x)
            if isinstance(x, float):
                try:
                    return int(x)
                except (OverflowError, ValueError) as e:
                    I.raise_(type(e), str(e))
            if isinstance(x, str):
                try:
                    return int(x)
                except ValueError as e:
                    I.raise_(ValueError, str(e))
            if isinstance(x, Arr):
                if not I.cx.decide(eq(self.np.size(I, x), ONE)):
                    I.raise_(TypeError, 'only length-1 arrays can be converted')
                x = self.np.item(I, x)
                return self.call_type(I, int, [x], {})
            if isinstance(x, S):
                t_ = x.t
                if t_.sort == 'Bool':
                    return I.wrap(ite(t_, ONE, ZERO), 'i')
                if t_.sort == 'Int':
                    return I.wrap(t_, 'i')
                return S(app('trunc', (t_,), 'Int'), 'i')
            if x is None or isinstance(x, (tuple, PList, PDict)):
                I.raise_(TypeError, 'int() argument')
            raise Unsupported('int(%r)' % (x,))
        if t is bool:
            if not args:
                return False
            x = args[0]
            if isinstance(x, S):
                return I.mkbool(x.t if x.t.sort == 'Bool' else ne(x.t, ZERO))
            return I.truth(x)
        if t is str:
            return self.to_str(I, args[0]) if args else ''
        if t is tuple:
            return I.mktup(I.iter_segs(args[0])) if args else ()
        if t is list:
            return PList(I.cx, I.norm_segs(I.iter_segs(args[0])) if args else ())
        if t is dict:
            d = PDict(I.cx)
            if args:
                self.fill_dict(I, d, args[0])
            return d
        if t is set or t is frozenset:
            return Opaque('set', items=PList(I.cx, I.norm_segs(I.iter_segs(args[0])) if args else ()))
        if t is type:
            return type_of(I, args[0])
        if t is object:
            return Opaque('object')
        if t is slice:
            a = list(args)
            if len(a) == 1:
                a = [None, a[0]]
            return Slice(a[0], a[1], a[2] if len(a) > 2 else None)
        raise Unsupported('call of %s' % t.__name__)

    def fill_dict(self, I, d, src):
        if isinstance(src, PDict):
            d.segs = src.segs
            return
        if isinstance(src, Obj):
            raise Unsupported('dict of an object')
        if isinstance(src, Opaque) and (src.tag, 'mapping') in OPAQUE:
            for k, v in OPAQUE[(src.tag, 'mapping')](I, src):
                I.dict_set(d, k, v)
            return
        for s in I.norm_segs(I.iter_segs(src)):
            if isinstance(s, One):
                kv = I.unpack(s.v, 2)
                I.dict_set(d, kv[0], kv[1])
            elif isinstance(s, Rep) and s.cond is None and not d.segs:
                def key(k, s=s):
                    return I.unpack(s.fn(k), 2)[0]

                def val(k, s=s):
                    return I.unpack(s.fn(k), 2)[1]
                d.segs = (DRep(s.n, key, val),)
            else:
                raise Unsupported('dict of a symbolic sequence')

    # ------------------------------------------------------------ hooks; extended by the dependency contracts
    def ext_attr(self, I, m, name):
        full = m.name + '.' + name
        h = EXT_ATTR.get(full)
        if h is not None:
            return h
        if full in EXT or full in ALIAS:
            return self.external(full)
        if m.name == 'numpy' or m.name.startswith('numpy.'):
            q = full[len('numpy.'):]
            if q in FUN:
                return Bi('numpy.' + q, lambda I2, a, k: self.np.call(I2, q, a, k))
        raise Unsupported(full)

    def opaque_attr(self, I, o, name):
        h = OPAQUE.get((o.tag, 'getattr'))
        if h is not None:
            r = h(I, o, name)
            if r is not NotImplemented:
                return r
        if o.tag == 'super':
            mro = (o.self_.cls if isinstance(o.self_, Obj) else o.self_).mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Static):
                        return Bound(v.f, o.self_.cls if isinstance(o.self_, Obj) else o.self_) \
                            if v.kind == 'class' else v.f
                    return Bound(v, o.self_)
            if name == '__init__':
                return Bi('object.__init__', lambda I2, a, k: None)
            I.raise_(AttributeError, name)
        if o.tag == 'type' and name == '__name__':
            return o.name
        if o.tag == 'dtype':
            if name == 'kind':
                return o.kind
            if name == 'type':
                return o
        raise Unsupported('attribute %s of %r' % (name, o))

    def hook(self, I, what, objs, *args):
        for o in objs:
            if isinstance(o, Opaque):
                h = OPAQUE.get((o.tag, what))
                if h is not None:
                    r = h(I, *args)
                    if r is not NotImplemented:
                        return r
        raise Unsupported('%s of %r' % (what, objs))

    def opaque_binop(self, I, op, a, b):
        return self.hook(I, 'binop', (a, b), op, a, b)

    def opaque_unop(self, I, op, a):
        return self.hook(I, 'unop', (a,), op, a)

    def opaque_eq(self, I, a, b):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opaque) and x.tag in ('type', 'dtype') and x.tag == 'dtype':
                try:
                    return tm.boolc(npfun.dkind(I, y) == x.kind)
                except Unsupported:
                    return FALSE
            if isinstance(x, Opaque) and x.tag == 'type':
                return FALSE
        return self.hook(I, 'eq', (a, b), a, b)

    def opaque_compare(self, I, op, a, b):
        for o in (a, b):
            if isinstance(o, Opaque):
                h = OPAQUE.get((o.tag, 'compare'))
                if h is not None:
                    r = h(I, op, a, b)
                    if r is not NotImplemented:
                        return r
        if op in ('==', '!='):
            r = self.opaque_eq(I, a, b)
            return I.mkbool(r if op == '==' else not_(r))
        return None

    def opaque_contains(self, I, x, c):
        if c.tag == 'set':
            return I.contains(x, c.items)
        return self.hook(I, 'contains', (c,), x, c)

    def opaque_ite(self, I, c, a, b):
        return self.hook(I, 'ite', (a, b), c, a, b)

    def opaque_inst(self, I, o, *args):
        return self.hook(I, 'inst', (o,), o, *args)

    def opaque_iter(self, I, o):
        if o.tag == 'set':
            segs = I.norm_segs(I.iter_segs(o.items))
            if len(segs) > 1 or not all(isinstance(s, One) for s in segs):
                # the order is arbitrary and an element counts once
                raise Unsupported('walk through a set')
            return segs
        return self.hook(I, 'iter', (o,), o)

    def opaque_call(self, I, o, args, kw):
        if o is ODICT:
            d = PDict(I.cx, ordered=True)
            if args:
                self.fill_dict(I, d, args[0])
            for k, v in kw.items():
                I.dict_set(d, k, v)
            return d
        return self.hook(I, 'call', (o,), o, args, kw)

    def opaque_setattr(self, I, o, name, v):
        return self.hook(I, 'setattr', (o,), o, name, v)

    def opaque_setitem(self, I, o, i, v):
        return self.hook(I, 'setitem', (o,), o, i, v)

    def opaque_delitem(self, I, o, i):
        return self.hook(I, 'delitem', (o,), o, i)

    def opaque_item(self, I, o, i):
        return self.hook(I, 'getitem', (o,), o, i)

    def opaque_array(self, I, o):
        h = OPAQUE.get((o.tag, 'array'))
        return h(I, o) if h is not None else None

    def opaque_ufunc(self, I, name, o):
        return self.hook(I, 'ufunc', (o,), name, o)

    def symval_attr(self, I, o, name):
        raise Unsupported('attribute %s of an abstract value' % name)

    def symval_item(self, I, o, i):
        raise Unsupported('item of an abstract value')

    # ------------------------------------------------------------ positive-definite matrices
    def gram(self, I, n, at):
        """the lower-triangular factor X with a positive diagonal such that at(i, j) = sum_k X(i, k) X(j, k), as a
        function, when at() is recognizably of this form"""
        i, j, k = tm.scratch(), tm.scratch(), tm.scratch()
        cx = I.cx
        rng = [le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n)]
        with cx.scope(rng):
            t = at(i, j)
            for s in sorted([x for x in tm.subterms(t) if x.op == 'sum' and x.args[0] is ZERO], key=lambda x: x.id):
                body = tm.open_binder(s, k)
                p = tm.poly_of(body)
                if len(p) != 1:
                    continue
                (mono, c), = p.items()
                fs = [a for a, ex in mono for _ in range(ex)]
                if c != 1 or len(fs) != 2:
                    continue
                X = None
                for f, g in (fs, fs[::-1]):
                    if j not in tm.fv(f) and tm.subst(f, {i: j}) is g:
                        X = f
                if X is None or not cx.prove(and_(eq(s.args[1], n), eq(t, s))):
                    continue
                fn = lambda a, b, X=X: tm.subst(X, {i: a, k: b})
                if self.is_factor(I, n, fn):
                    return fn
            # a diagonal matrix
            with cx.scope([ne(i, j)]):
                dg = cx.prove(eq(t, ZERO))
            if dg:
                d = at(i, i)
                if cx.prove(lt(ZERO, d)):
                    return lambda a, b: ite(eq(a, b), tm.sqrt(tm.subst(d, {i: a})), ZERO)
        return None

    def is_factor(self, I, n, X):
        a, b = tm.scratch(), tm.scratch()
        with I.cx.scope([le(ZERO, a), lt(a, n), le(ZERO, b), lt(b, n)]):
            if not I.cx.prove(lt(ZERO, X(a, a))):
                return False
            with I.cx.scope([lt(a, b)]):
                return I.cx.prove(eq(X(a, b), ZERO))

    def mat_term(self, I, n, at):
        return self.mat_term2(I, n, n, at)

    def mat_term2(self, I, n, m, at):
        i, j = tm.scratch(), tm.scratch()
        with I.cx.scope([le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, m)]):
            t = at(i, j)
            if t.sort == 'Bool':
                t = ite(t, ONE, ZERO)
        return tm.lam_(n, i, tm.lam_(m, j, t))

    def is_pd(self, I, n, at):
        return app('ISPD', (self.mat_term(I, n, at),), 'Bool')

    def cholesky(self, I, a, n):
        """numpy.linalg.cholesky: the factor of a positive-definite matrix, LinAlgError (a ValueError) otherwise"""
        snap = a.snap()
        X = self.gram(I, n, lambda i, j: snap((i, j)))
        if X is not None:
            return self.np.new(I, (n, n), lambda idx: X(*idx), 'f')
        l = self.mat_term(I, n, lambda i, j: snap((i, j)))
        names = {d[0] for d in I.cx.dual}

        def duals(t):
            return {y.val for y in tm.subterms(t, into_sums=True) if y.op == 'app' and y.val in names}
        seen = {x for f in I.cx.facts for x in tm.subterms(f) if x.op == 'app' and x.val == 'ISPD'}
        for x in sorted(seen, key=lambda y: y.id):
            if x.args[0] is not l and duals(x) == duals(l) and I.cx.prove(eq(x.args[0], l)):
                l = x.args[0]
                break
        if I.cx.dual:
            from .deps import undual
            if self.gram(I, n, lambda i, j: undual(I, snap((i, j)))) is not None:
                I.cx.assume(app('ISPD', (l,), 'Bool'))
        if not I.cx.decide(app('ISPD', (l,), 'Bool')):
            from .deps import LinAlgError
            I.raise_(LinAlgError, 'Matrix is not positive definite')
        return self.np.new(I, (n, n), lambda idx: ite(le(idx[1], idx[0]), app('CHOL', (l,) + tuple(idx), 'Real'),
                                                      ZERO), 'f')


OPAQUE = {}          # (tag, hook) -> function
EXT_ATTR = {}        # 'module.name' -> value
EXT = {}             # module name -> namespace
ALIAS = {'autograd.numpy': 'numpy', 'autograd.numpy.linalg': 'numpy.linalg', 'autograd.numpy.random': 'numpy.random'}
EXT_TOPS = {'numpy', 'scipy', 'autograd', 'json', 'copy', 'itertools', 'math', 'warnings', 'collections', 'numbers',
            'abc', 'os', 'sys', 'functools', 'sksparse', 'time', 'typing', 'operator'}


def opaque(tag, *what):
    def deco(f):
        for w in what:
            OPAQUE[(tag, w)] = f
        return f
    return deco


# ---------------------------------------------------------------- builtins
SUBTUPLE = type('SubTuple', (tuple,), {})


def type_of(I, x):
    if isinstance(x, Obj):
        return x.cls
    if isinstance(x, bool):
        return bool
    if isinstance(x, (int, float, str)) or x is None:
        return type(x)
    if isinstance(x, S):
        return {'i': int, 'f': float, 'b': bool}[x.kind]
    if isinstance(x, SStr):
        return str
    if isinstance(x, STup) and x.sub:
        return SUBTUPLE
    if isinstance(x, (tuple, STup)):
        return tuple
    if isinstance(x, PList):
        return list
    if isinstance(x, PDict):
        return ODICT if x.ordered else dict
    if isinstance(x, Arr):
        return NDARRAY
    if isinstance(x, (Func, Bi, Bound)):
        return FUNCTION
    if isinstance(x, Cls):
        return type
    if isinstance(x, ExcVal):
        return x.cls
    if isinstance(x, Opaque):
        h = OPAQUE.get((x.tag, 'type'))
        if h is not None:
            return h(I, x)
    raise Unsupported('type of %r' % (x,))


def is_instance(I, x, c):
    if isinstance(c, tuple):
        return any(is_instance(I, x, y) for y in c)
    if isinstance(x, Opaque):
        h = OPAQUE.get((x.tag, 'isinstance'))
        if h is not None:
            r = h(I, x, c)
            if r is not NotImplemented:
                return r
    if isinstance(c, Opaque) and c.tag == 'numabc':
        return isinstance(x, (int, float, S)) and (c.name != 'Integral' or not isinstance(x, float) and
                                                   not (isinstance(x, S) and x.kind == 'f'))
    if isinstance(x, SymVal):
        raise Unsupported('type of an abstract value')
    t = type_of(I, x)
    if isinstance(c, Cls):
        return isinstance(t, Cls) and c in t.mro()
    if t is c:
        return True
    if c is dict and t is ODICT:
        return True
    if isinstance(c, type) and isinstance(t, type):
        return issubclass(t, c)
    if c is object:
        return True
    return False


def b_len(I, x):
    if isinstance(x, Opaque) and x.tag == 'set':
        segs = I.norm_segs(I.iter_segs(x.items))
        if len(segs) == 1 and isinstance(segs[0], Rep) and segs[0].cond is None or \
                all(isinstance(s, One) and isinstance(s.v, (int, S)) for s in segs):
            u = I.world.np.call(I, 'unique', [I.world.np.call(I, 'array', [PList(I.cx, segs)], {})], {})
            return I.mkint(u.shape[0])
    return I.mkint(I.length(x))


# ---------------------------------------------------------------- sets (and views of keys): what is in them, not how many
def set_items(I, x):
    if isinstance(x, Opaque) and x.tag == 'set':
        return x.items
    if isinstance(x, (PList, Iter, tuple, STup)):
        return x
    if isinstance(x, PDict):
        return PList(I.cx, I.norm_segs(I.iter_segs(x)))
    raise Unsupported('set operation on %r' % (x,))


def set_all(I, a, fn):
    """fn holds of every element"""
    out = []
    for s in I.norm_segs(I.iter_segs(a)):
        if isinstance(s, One):
            out.append(fn(s.v))
        elif isinstance(s, Rep):
            k = fresh('e', 'Int')
            c = s.cond(k) if s.cond is not None else TRUE
            with I.cx.scope([le(ZERO, k), lt(k, s.n), c]):
                g = fn(s.fn(k))
            out.append(all_(ZERO, s.n, k, or_(not_(c), g)))
        else:
            raise Unsupported('set of %r' % (s,))
    return and_(*out)


def set_subset(I, a, b):
    b = set_items(I, b)
    return set_all(I, set_items(I, a), lambda v: I.contains(v, b))


def set_filter(I, a, fn):
    out = []
    for s in I.norm_segs(I.iter_segs(a)):
        if isinstance(s, One):
            if I.cx.decide(fn(s.v)):
                out.append(s)
        elif isinstance(s, Rep):
            def cond(k, s=s):
                c = s.cond(k) if s.cond is not None else TRUE
                with I.cx.scope([le(ZERO, k), lt(k, s.n), c]):
                    return and_(c, fn(s.fn(k)))
            out.append(Rep(s.n, s.fn, cond))
        else:
            raise Unsupported('set of %r' % (s,))
    return Opaque('set', items=PList(I.cx, out))


@opaque('set', 'compare')
def set_compare(I, op, a, b):
    if not all(isinstance(x, Opaque) and x.tag == 'set' for x in (a, b)):
        return NotImplemented
    if op in ('>=', '>'):
        a, b, op = b, a, {'>=': '<=', '>': '<'}[op]
    t = set_subset(I, a, b)
    if op == '<':
        t = and_(t, not_(set_subset(I, b, a)))
    elif op != '<=':
        return NotImplemented
    return I.mkbool(t)


@opaque('set', 'eq')
def set_eq(I, a, b):
    if not all(isinstance(x, Opaque) and x.tag == 'set' for x in (a, b)):
        return FALSE
    return and_(set_subset(I, a, b), set_subset(I, b, a))


@opaque('set', 'binop')
def set_binop(I, op, a, b):
    if not all(isinstance(x, Opaque) and x.tag == 'set' for x in (a, b)):
        return NotImplemented
    if op == '-':
        return set_filter(I, a.items, lambda v: not_(I.contains(v, b.items)))
    if op == '&':
        return set_filter(I, a.items, lambda v: I.contains(v, b.items))
    if op == '|':
        return Opaque('set', items=PList(I.cx, I.norm_segs(I.iter_segs(a.items)) + I.norm_segs(I.iter_segs(b.items))))
    raise Unsupported('%s of sets' % op)


@opaque('set', 'getattr')
def set_getattr(I, o, name):
    if name == 'issubset':
        return Bi(name, lambda I, a, k: I.mkbool(set_subset(I, o, a[0])))
    if name == 'issuperset':
        return Bi(name, lambda I, a, k: I.mkbool(set_subset(I, a[0], o)))
    if name in ('difference', 'intersection', 'union'):
        op = {'difference': '-', 'intersection': '&', 'union': '|'}[name]
        return Bi(name, lambda I, a, k: set_binop(I, op, o, Opaque('set', items=set_items(I, a[0]))))
    raise Unsupported('set.%s' % name)


def b_range(I, *a):
    a = [I.term_i(x) if not isinstance(x, float) else I.raise_(TypeError, 'float') for x in a]
    if len(a) == 1:
        return PRange(ZERO, a[0])
    if len(a) == 2:
        return PRange(a[0], a[1])
    if a[2].op == 'const' and a[2].val == 1:
        return PRange(a[0], a[1])
    if all(x.op == 'const' for x in a):
        return PList(I.cx, [One(j) for j in range(*[int(x.val) for x in a])])
    raise Unsupported('range with a step')


def b_enumerate(I, v, start=0):
    off = I.term_i(start)
    out = []
    for s in I.norm_segs(I.iter_segs(v)):
        if isinstance(s, One):
            out.append(One((I.mkint(off), s.v)))
            off = add(off, ONE)
        elif isinstance(s, Rep) and s.cond is None:
            out.append(Rep(s.n, lambda k, s=s, off=off: (I.mkint(add(off, k)), s.fn(k))))
            off = add(off, s.n)
        else:
            raise Unsupported('enumerate')
    return Iter(out)


def _merge_numbers(I, segs):
    """a number followed by a symbolic sequence of numbers, as one sequence"""
    if len(segs) != 2 or not isinstance(segs[0], One) or not isinstance(segs[1], Rep) or segs[1].cond is not None:
        return segs
    v, r = segs[0].v, segs[1]
    try:
        t, kind = I.term(v)
    except Unsupported:
        return segs
    k = tm.scratch()
    with I.cx.scope([le(ZERO, k), lt(k, r.n)]):
        u, ku = I.term(r.fn(k))
    if 'b' in (kind, ku):
        return segs
    kind = 'f' if 'f' in (kind, ku) else 'i'
    same = subst(u, {k: num(-1)}) == t       # as for running sums
    return [Rep(add(r.n, ONE), lambda j: I.wrap(
        subst(u, {k: sub(j, ONE)}) if same else ite(eq(j, ZERO), t, subst(u, {k: sub(j, ONE)})), kind))]


def b_zip(I, *vs):
    if not vs:
        return Iter(())
    lists = [list(I.norm_segs(I.iter_segs(v))) for v in vs]
    out = []
    while all(lists):
        heads = [l[0] for l in lists]
        if all(isinstance(h, One) for h in heads):
            out.append(One(tuple(h.v for h in heads)))
            for l in lists:
                l.pop(0)
        elif all(isinstance(h, Rep) and h.cond is None for h in heads):
            ns = [h.n for h in heads]
            if all(n is ns[0] or I.cx.prove(eq(n, ns[0])) for n in ns):
                out.append(Rep(ns[0], lambda k, heads=heads: tuple(h.fn(k) for h in heads)))
                for l in lists:
                    l.pop(0)
            else:
                if not all(len(l) == 1 for l in lists):
                    raise Unsupported('zip of different lengths')
                m = ns[0]
                for n in ns[1:]:
                    m = m if I.cx.decide(le(m, n)) else n
                out.append(Rep(m, lambda k, heads=heads: tuple(h.fn(k) for h in heads)))
                break
        else:
            merged = [_merge_numbers(I, l) for l in lists]
            if merged == lists or not all(len(l) == 1 and isinstance(l[0], Rep) for l in merged):
                raise Unsupported('zip of mixed sequences')
            lists = merged
    return Iter(out)


def b_sum(I, v, start=0):
    acc = start
    for s in I.norm_segs(I.iter_segs(v)):
        if isinstance(s, One):
            acc = I.binop('+', acc, s.v)
        elif isinstance(s, Rep):
            k = tm.scratch()
            fs = [le(ZERO, k), lt(k, s.n)]
            c = s.cond(k) if s.cond is not None else TRUE
            with I.cx.scope(fs + [c]):
                x = s.fn(k)
                if isinstance(x, Arr):
                    raise Unsupported('sum of arrays')
                t = I.numterm(x)
                kind = I.term(x)[1]
            t = ite(c, t, num(0, t.sort))
            acc = I.binop('+', acc, I.wrap(sum_(ZERO, s.n, k, t), kind if kind != 'b' else 'i'))
        else:
            raise Unsupported('sum')
    return acc


def b_quant(is_all):
    def f(I, v):
        if isinstance(v, Arr):
            r = I.world.np.call(I, 'all' if is_all else 'any', [v], {})
            return r
        cs = []
        for s in I.norm_segs(I.iter_segs(v)):
            if isinstance(s, One):
                x = s.v
                b = I.term(x)[0] if isinstance(x, S) and x.t.sort == 'Bool' else tm.boolc(I.truth(x))
                cs.append(b)
            elif isinstance(s, Rep):
                k = fresh('q', 'Int')
                fs = [le(ZERO, k), lt(k, s.n)]
                c = s.cond(k) if s.cond is not None else TRUE
                with I.cx.scope(fs + [c]):
                    x = s.fn(k)
                    if not (isinstance(x, (bool,)) or isinstance(x, S) and x.t.sort == 'Bool'):
                        raise Unsupported('quantifier over %r' % (x,))
                    b = I.term(x)[0]
                cs.append(all_(ZERO, s.n, k, or_(not_(c), b)) if is_all else ex_(ZERO, s.n, k, and_(c, b)))
            else:
                raise Unsupported('quantifier')
        return I.mkbool(and_(*cs) if is_all else or_(*cs))
    return f


def b_minmax(flip):
    def f(I, *a):
        if len(a) == 1:
            segs = I.norm_segs(I.iter_segs(a[0]))
            if not all(isinstance(s, One) for s in segs):
                raise Unsupported('min/max of a symbolic sequence')
            a = [s.v for s in segs]
            if not a:
                I.raise_(ValueError, 'empty sequence')
        r = a[0]
        for x in a[1:]:
            c = I.compare('>' if flip else '<', x, r)
            if isinstance(c, bool):
                r = x if c else r
            else:
                r = I.vite(I.term(c)[0], x, r)
        return r
    return f


def b_abs(I, x):
    if isinstance(x, (int, float)):
        return abs(x)
    return I.world.np.call(I, 'abs', [x], {})


def b_getattr(I, o, name, *d):
    if not isinstance(name, str):
        raise Unsupported('getattr')
    try:
        return I.getattr(o, name)
    except PyRaise as e:
        if d and e.exc.cls is AttributeError:
            return d[0]
        raise


def b_hasattr(I, o, name):
    try:
        I.getattr(o, name)
        return True
    except PyRaise as e:
        if e.exc.cls is AttributeError:
            return False
        raise


def b_print(I, *args, **kw):
    I.world.events.append(('print', args))


def b_map(I, f, *vs):
    src = vs[0] if len(vs) == 1 else b_zip(I, *vs)
    out = []
    for s in I.norm_segs(I.iter_segs(src)):
        call = (lambda x: I.call(f, [x], {})) if len(vs) == 1 else (lambda x: I.call(f, list(x), {}))
        if isinstance(s, One):
            out.append(One(call(s.v)))
        elif isinstance(s, Rep) and s.cond is None:
            out.append(Rep(s.n, lambda k, s=s: call(s.fn(k))))
        elif isinstance(s, BSeg) and len(vs) == 1:
            out.append(BSeg(s.block, s.lin, lambda v, s=s: call(s.fn(v) if s.fn else v), ('map', s.tag)))
        else:
            raise Unsupported('map')
    return Iter(out)


def b_reversed(I, v):
    segs = I.norm_segs(I.iter_segs(v))
    out = []
    for s in reversed(segs):
        if isinstance(s, One):
            out.append(s)
        elif isinstance(s, Rep) and s.cond is None:
            out.append(Rep(s.n, lambda k, s=s: s.fn(sub(sub(s.n, ONE), k))))
        else:
            raise Unsupported('reversed')
    return Iter(out)


def b_sorted(I, v, key=None, reverse=False):
    segs = I.norm_segs(I.iter_segs(v))
    if not all(isinstance(s, One) for s in segs):
        raise Unsupported('sorted of a symbolic sequence')
    els = [s.v for s in segs]
    ks = [I.call(key, [x], {}) if key is not None else x for x in els]
    order = []
    for i in range(len(els)):
        p = 0
        while p < len(order) and I.truth(I.compare('>=' if reverse else '<=', ks[order[p]], ks[i])):
            p += 1
        order.insert(p, i)
    return PList(I.cx, [One(els[i]) for i in order])


def b_setattr(I, o, name, v):
    I.setattr(o, name, v)


def b_callable(I, x):
    return isinstance(x, (Func, Bi, Bound, Cls)) or isinstance(x, Opaque) and (x.tag, 'call') in OPAQUE or \
        isinstance(x, Obj) and x.cls.lookup('__call__')[0] is not None


def b_issubclass(I, a, b):
    if isinstance(a, Cls) and isinstance(b, Cls):
        return b in a.mro()
    raise Unsupported('issubclass')


def b_static(kind):
    def f(I, g):
        return Static(g, kind)
    return f


def b_filter(I, f, v):
    segs = I.norm_segs(I.iter_segs(v))
    if not all(isinstance(s, One) for s in segs):
        raise Unsupported('filter')
    return Iter([s for s in segs if I.truth(I.call(f, [s.v], {}) if f is not None else s.v)])


def b_next(I, it, *d):
    raise Unsupported('next')


def b_repr(I, x):
    return I.world.to_str(I, x) if not isinstance(x, (str, SStr)) else SStr([('o', 'repr')])


BUILTINS = {n: Bi(n, (lambda f: lambda I, a, k: f(I, *a, **k))(f)) for n, f in {
    'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'sum': b_sum, 'all': b_quant(True),
    'any': b_quant(False), 'min': b_minmax(False), 'max': b_minmax(True), 'abs': b_abs, 'getattr': b_getattr,
    'hasattr': b_hasattr, 'setattr': b_setattr, 'print': b_print, 'map': b_map, 'reversed': b_reversed,
    'sorted': b_sorted, 'callable': b_callable, 'issubclass': b_issubclass, 'filter': b_filter,
    'isinstance': lambda I, x, c: is_instance(I, x, c), 'next': b_next, 'repr': b_repr,
    'iter': lambda I, v: Iter(I.iter_segs(v)),
    'classmethod': b_static('class'), 'staticmethod': b_static('static'), 'property': b_static('property'),
}.items()}
for _t in (int, float, bool, str, tuple, list, dict, set, frozenset, type, object, slice):
    BUILTINS[_t.__name__] = _t
for _e in (Exception, BaseException, ValueError, TypeError, KeyError, IndexError, AttributeError, AssertionError,
           NotImplementedError, RuntimeError, ZeroDivisionError, ArithmeticError, LookupError, ImportError, OSError,
           StopIteration, NameError, OverflowError, FloatingPointError, UserWarning, Warning, DeprecationWarning,
           RuntimeWarning, FutureWarning):
    BUILTINS[_e.__name__] = _e
BUILTINS['NotImplemented'] = Opaque('NotImplemented')
BUILTINS['__name__'] = 'paragami'
from . import deps, files, special, linalg          # noqa: E402,F401  (registers the contracts of the dependencies)

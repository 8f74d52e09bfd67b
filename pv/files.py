"""Contract of numpy.savez and numpy.load: what is loaded from a file is what was last saved to it, by name."""
from . import terms as tm
from .values import *
from .world import opaque, OPAQUE
from .deps import ext


def store(I, v):
    """the array that numpy writes for a value"""
    if isinstance(v, (str, SStr)) or isinstance(v, Opaque) and v.tag in ('json', 'pjson'):
        return Opaque('str0', v=v)
    if isinstance(v, Opaque) and v.tag == 'str0':
        return v
    a = I.world.np.asarr(I, v)
    return I.world.np.new(I, a.shape, a.snap(), a.kind)


def files(I):
    if not hasattr(I.cx, 'files'):
        I.cx.files = {}
    return I.cx.files


def path(f):
    if not isinstance(f, str):
        raise Unsupported('file %r' % (f,))
    return f


def savez(I, file, *args, **kw):
    file = path(file)
    if not file.endswith('.npz'):
        file = file + '.npz'
    kw.pop('allow_pickle', None)
    items = dict(kw)
    for i, v in enumerate(args):
        if 'arr_%d' % i in items:
            I.raise_(ValueError, 'Cannot use un-named variables and keyword arr_%d' % i)
        items['arr_%d' % i] = v
    files(I)[file] = {n: store(I, v) for n, v in items.items()}


ext('numpy.savez')(savez)
ext('numpy.savez_compressed')(savez)


@ext('numpy.load')
def load(I, file, mmap_mode=None, allow_pickle=False, **kw):
    if kw:
        raise Unsupported('numpy.load keywords')
    f = path(file)
    if f not in files(I):
        I.raise_(FileNotFoundError, f)
    return Opaque('npz', items=dict(files(I)[f]), closed=False)


def item(I, o, n):
    if o.closed:
        I.raise_(ValueError, 'the file is closed')
    if not isinstance(n, str):
        raise Unsupported('entry %r of a file' % (n,))
    if n.endswith('.npy') and n not in o.items:
        n = n[:-4]
    if n not in o.items:
        I.raise_(KeyError, '%s is not a file in the archive' % n)
    v = o.items[n]
    return I.world.np.new(I, v.shape, v.snap(), v.kind) if isinstance(v, Arr) else v


opaque('npz', 'getitem')(item)


@opaque('npz', 'contains')
def contains(I, x, o):
    return tm.boolc(isinstance(x, str) and x in o.items)


@opaque('npz', 'iter')
def iterate(I, o):
    return [One(n) for n in o.items]


@opaque('npz', 'mapping')
def mapping(I, o):
    return [(n, item(I, o, n)) for n in o.items]


def close(I, o):
    o.closed = True


@opaque('npz', 'exit')
def exit_(I, o):
    close(I, o)


@opaque('npz', 'enter')
def enter(I, o):
    return o


@opaque('npz', 'getattr')
def attr(I, o, name):
    if name in ('files', 'keys'):
        names = PList(I.cx, [One(n) for n in o.items])
        return names if name == 'files' else Bi('npz.keys', lambda I2, a, k: names)
    if name == 'items':
        return Bi('npz.items', lambda I2, a, k: PList(I2.cx, [One((n, item(I2, o, n))) for n in o.items]))
    if name == 'values':
        return Bi('npz.values', lambda I2, a, k: PList(I2.cx, [One(item(I2, o, n)) for n in o.items]))
    if name == 'get':
        return Bi('npz.get', lambda I2, a, k: item(I2, o, a[0]) if a[0] in o.items else (a[1] if len(a) > 1 else None))
    if name == 'close':
        return Bi('npz.close', lambda I2, a, k: close(I2, o))
    return NotImplemented


# a 0-dimensional array of one string
@opaque('str0', 'getattr')
def s_attr(I, o, name):
    if name in ('item', 'tolist'):
        return Bi('str0.item', lambda I2, a, k: o.v)
    if name == 'shape':
        return ()
    return NotImplemented


@opaque('str0', 'getitem')
def s_item(I, o, i):
    return o.v if i == () else I.raise_(IndexError, 'too many indices for array')


@opaque('str0', 'str')
@opaque('json', 'str')
@opaque('pjson', 'str')
def s_str(I, o):
    return o.v if o.tag == 'str0' else o

"""C17: files written by hickle 3.x and 4.0 load to the values dumped into them."""
import collections, hashlib, io, os, pathlib, pickle, shutil, string, subprocess, sys, warnings
import h5py, numpy as np, scipy.sparse as sp
from astropy import constants as C, units as u
from astropy.coordinates import Angle, SkyCoord
from astropy.table import Table
from astropy.time import Time
import hickle
from checks import c05
from vmon import core, gen, hk, old_writers as W, oracle, types_for_tests as T
from vmon.core import Violation

ID = 'C17'
LEVEL = 'exploration'
NCASES = {'quick': 480, 'thorough': 6000}
MIN_DISTINCT = {'quick': 700, 'thorough': 6000}
FORMATS = ('v3', 'v4')
KINDS = ('scalar', 'text', 'numbers', 'texts', 'mixed', 'set', 'dict', 'array', 'strarray', 'objarray', 'masked', 'npscalar', 'npdtype', 'sparse', 'astropy', 'pickle', 'subclass', 'long')
V3 = tuple(k for k in KINDS if k not in ('strarray', 'objarray', 'subclass'))
REQUIRED = (['v3:' + k for k in V3] + ['v4:' + k for k in KINDS] + ['target:%s:%s' % (f, t) for f in FORMATS for t in ('name', 'path', 'file-r', 'file-r+')]
            + ['target:v4:group', 'target:v4:bytesio', 'target:v4:fileobj', 'repeat', 'interleaved', 'multi-path', 'root', 'fresh:v3', 'fresh:v4', 'mixed-file', 'overlay-guard', 'shipped:3', 'shipped:4', 'catalogue:v3', 'catalogue:v4', 'file-unchanged', 'content-unchanged', 'compressed', 'version:4.0.0', 'compared'])
RULE = ('random structures of everything the old formats could represent are laid out by reference writers of the 3.4 and 4.0 layouts (validated against files written by these releases), at the root or at several paths, '
        'with and without compression, then loaded by name, path object and open file, repeatedly, interleaved with another old file of the same name in another folder, next to a current dump in the same file; '
        'values are compared strictly, the files, their folder and any overlay-named neighbour are compared before and after; distinct by format, structure and way of loading')
ASSUMPTIONS = ['the reference writers produce what hickle 3.4 and 4.0 produced; the files these releases wrote themselves, shipped with the repository, are loaded as well',
               'the 3.x layout does not record the order of dict items: dicts of 3.x files are compared without it',
               'values these releases could not store without loss (NUL in byte strings, non ASCII unicode arrays, integers beyond 64 bit) are not generated']
TECHNIQUE = 'runtime monitoring: files laid out by independent reference writers are loaded under a strict comparison oracle, with monitors on the files before and after'

PRINT = string.ascii_letters + string.digits + ' _-+.,;:!?()[]{}<>=*&%$#@~^|"'


def text(r, lo=0, hi=12):
    pool = PRINT if r.random() < .7 else PRINT + 'äöüßé中文\U0001f600\n\t\'\\/'
    return ''.join(r.choice(pool) for _ in range(r.randint(lo, hi)))


def blob(r, lo=0, hi=12):
    k = r.random()
    if k < .1:
        return r.choice((b'', b' ', b'\n')) * (not lo) + b'a b' + r.choice((b' ', b'\n', b'\t ', b'\r\n', b'  '))
    if k < .6:
        return text(r, lo, hi).encode('utf8')
    b = bytes(r.randrange(256) for _ in range(r.randint(lo, hi)))
    return b.replace(b'\0', b'') or b'x' * bool(lo)


def integer(r):
    return r.choice((0, 1, -1, 255, -2 ** 31, 2 ** 31, 2 ** 62, -2 ** 63, 2 ** 63 - 1, r.randint(-1000, 1000), r.randint(-2 ** 40, 2 ** 40)))


def scalar(r):
    return r.choice((lambda: None, lambda: r.random() < .5, lambda: integer(r), lambda: gen.rfloat(r), lambda: complex(r.uniform(-9, 9), r.choice((0.0, -1.5, 1e300)))))()


def noslash(x):
    return x.replace('\\', '').replace('/', '').replace("'", '').replace('\n', '').replace('\t', '')


def key(r, fmt):
    k = r.random()
    if k < .6:
        x = noslash(text(r, 1, 8)).strip('.')
        if fmt == 'v4' and r.random() < .15:
            x = 'a/b' + x       # stored with backslash
        return x or 'k'
    if k < .72:
        return r.choice((0, -1, 7, 12, 10 ** 12, r.randint(-99, 99)))
    if k < .8:
        return r.choice((0.5, -1.25, 1e300, 3.0, r.uniform(-5, 5)))
    if k < .85:
        return r.random() < .5
    if k < .9:
        return complex(r.randint(0, 4), r.randint(1, 4))
    if k < .915:
        return None
    if k < .935:
        return r.choice(((1, 2), (r.randint(0, 9), 'a b'), (0.5, None), ('x', ('y', -3)), ()))
    if fmt == 'v4' and k < .97:
        return r.choice((b'a/b', b'/', b"it's", b'x/' + b'k' * r.randint(0, 3)))
    return bytes(ord(c) for c in noslash(''.join(r.choice(PRINT) for _ in range(5))).strip('.') or 'k')


def rsparse(r):
    a = (np.array([r.choice((0, 0, 1, 2, 5)) for _ in range(24)]).reshape(4, 6)).astype(r.choice(('f8', 'i4', 'f4', 'c16')))
    cls = r.choice((sp.csr_matrix, sp.csc_matrix, sp.bsr_matrix))
    return sp.bsr_matrix(a, blocksize=(2, 3)) if cls is sp.bsr_matrix else cls(a)


def rastropy(r):
    shape = r.choice(((), (3,), (2, 2)))
    v = c05.reals(r, shape)
    k = r.randrange(6)
    if k == 0:
        return u.Quantity(v, r.choice((u.m, u.km / u.s, u.Jy, u.Unit('erg / (s cm2 AA)'), u.dimensionless_unscaled, u.kg ** 2)))
    if k == 1:
        return Angle(v, r.choice((u.deg, u.rad, u.hourangle, u.arcmin)))
    if k == 2:
        if r.random() < .5:
            return Time(50000.0 + np.arange(r.randint(1, 4)) * 0.25, format=r.choice(('mjd', 'cxcsec', 'unix')), scale=r.choice(('utc', 'tai')))
        return Time(['1999-01-01T00:00:00.%03d' % r.randrange(1000), '2010-01-01T00:00:00.000'], format='isot', scale=r.choice(('utc', 'tt')))
    if k == 3:
        n = r.choice((None, 3))
        return SkyCoord(ra=c05.reals(r, (n,) if n else (), 0, 359) * u.deg, dec=c05.reals(r, (n,) if n else (), -89, 89) * u.deg)
    if k == 4:
        c = r.choice((C.G, C.c, C.h, C.k_B, C.m_e))
        return C.Constant(c.abbrev, c.name, c.value, str(c.unit), c.uncertainty, c.reference, c.system)
    n = r.randint(1, 5)
    return Table({'a': np.arange(n, dtype='i4'), 'b': np.linspace(0, 1, n), 'longer_name': np.arange(n, dtype='u1')[::-1]}, meta={'telescope': 'x' * r.randint(1, 5), 'n': r.randint(0, 9)} if r.random() < .5 else {})


def array(r, fmt):
    dt = r.choice(('b1', 'i1', 'u2', 'i4', 'i8', 'u8', 'f4', 'f8', 'c8', 'c16', '>i2', '>f4', 'f2'))
    shape = r.choice(((), (0,), (1,), (5,), (2, 3), (3, 1, 2), (0, 4), (40,)))
    if shape == () and dt[0] == '>':
        dt = dt[1:]     # zero dimensional data was read as scalar by 3.x, in native byte order
    a = np.asarray(gen.fill_numeric(r, np.dtype(dt), shape))
    return np.array(a.reshape(shape), dtype=dt)


def value(r, fmt, depth, kind=None, seen=None):
    kind = kind or r.choice([k for k in (V3 if fmt == 'v3' else KINDS) if k != 'long'])
    if depth <= 0 and kind in ('mixed', 'dict', 'objarray', 'subclass'):
        kind = r.choice(('scalar', 'text', 'numbers', 'array'))
    seen.add(kind)
    sub = lambda: value(r, fmt, depth - 1, None, seen)
    if kind == 'scalar':
        return scalar(r)
    if kind == 'text':
        return text(r) if r.random() < .6 else blob(r)
    seq = r.choice((list, tuple))
    if kind == 'numbers':
        g = r.choice((lambda: integer(r), lambda: gen.rfloat(r), lambda: r.random() < .5, lambda: complex(1, r.randint(0, 3))))
        return seq(g() for _ in range(r.choice((0, 1, 2, 5, 30))))
    if kind == 'texts':
        g = r.choice((lambda: text(r), lambda: text(r, 1, 1), lambda: blob(r, 0, 6), lambda: ''.join(r.choice(PRINT) for _ in range(4))))
        return seq(g() for _ in range(r.choice((1, 2, 5, 12))))
    if kind == 'set':
        g = r.choice((lambda: integer(r), lambda: noslash(text(r, 1)), lambda: r.uniform(-1, 1), lambda: scalar(r), lambda: (integer(r), text(r))))
        s = {g() for _ in range(r.choice((0, 1, 2, 6)))}
        return s if len({x for x in s if x == x}) == len(s) else {1, 2}
    if kind == 'mixed':
        n = r.choice((1, 2, 3, 4, 12))
        return seq([scalar(r) if i % 2 else sub() for i in range(n)] + ['end', n])
    if kind == 'long':
        # indices of four digits
        n = r.randint(1001, 1200)
        return seq([(i, 'item %d' % i, None, float(i), b'%d' % i, [i, 'x'])[r.randrange(6) if i % 50 == 0 else i % 3] for i in range(n)])
    if kind == 'dict':
        res = {}
        for _ in range(r.choice((0, 1, 2, 4, 9))):
            k = key(r, fmt)
            # keys which have the same textual form would clash in these formats
            if not any(str(k) == str(o) or k == o for o in res):
                res[k] = sub()
        return res
    if kind == 'array':
        return array(r, fmt)
    if kind == 'strarray':
        shape = r.choice(((), (1,), (3,), (2, 2)))
        n = int(np.prod(shape))
        lo = 1 if shape == () or r.random() < .5 else 0
        words = [''.join(r.choice(PRINT) for _ in range(r.randint(lo, 9))).strip() or 'w' for _ in range(n)]
        a = np.array(words if r.random() < .6 else [w.encode() for w in words]).reshape(shape)
        return a
    if kind == 'objarray':
        shape = r.choice(((), (2,), (4,)))
        a = np.empty(shape, object)
        if shape == ():
            a[()] = r.choice(({}, {'a': 1}, {'x': [1, 'y']}))
        else:
            for i in range(shape[0]):
                a[i] = r.choice((None, i, 'text', {'k': i}, 1.5))
            a[0] = 'first'
            a[-1] = {'k': r.randint(0, 9)}
        return a
    if kind == 'masked':
        a = array(r, fmt)
        while a.ndim == 0 or a.dtype.kind == 'c' and False:
            a = array(r, fmt)
        m = np.array([r.random() < .4 for _ in range(a.size)], bool).reshape(a.shape)
        return np.ma.array(a, mask=m) if r.random() < .85 else np.ma.array(a)
    if kind == 'npscalar':
        return np.dtype(r.choice(('i1', 'u2', 'i4', 'i8', 'f2', 'f4', 'f8', 'c8', 'c16', 'b1'))).type(r.choice((0, 1, 2, 3, 1.5, 0.1)))
    if kind == 'npdtype':
        return np.dtype(r.choice(('f4', 'i8', '>i2', 'u1', 'c16', 'b1', 'S5')))
    if kind == 'sparse':
        return rsparse(r)
    if kind == 'astropy':
        return rastropy(r)
    if kind == 'pickle':
        return r.choice((lambda: frozenset(range(r.randint(0, 4))), lambda: T.Plain(x=[r.randint(0, 9), 'y']), lambda: range(r.randint(0, 9)), lambda: Ellipsis, lambda: slice(1, r.randint(2, 9)), lambda: collections.deque([1, 'x'])))()
    if kind == 'subclass':
        k = r.randrange(3)
        if k == 0:
            return collections.OrderedDict((str(i), sub()) for i in r.sample(range(20), r.randint(0, 5)))
        return T.ListSub([1, 'x', sub()]) if k == 1 else T.ListSub(range(r.randint(1, 4)))
    raise AssertionError(kind)


def unordered(x):
    return sorted(x.items(), key=lambda kv: (type(kv[0]).__name__, repr(kv[0])))


def compare(a, b, fmt, path='obj'):
    """strict comparison; dicts of 3.x files without order"""
    if type(a).__module__.startswith('astropy'):
        d = c05.compare(a, b)
        return d and '%s: %s' % (path, d)
    if isinstance(a, dict):
        if type(a) is not type(b):
            return '%s: type %s became %s' % (path, type(a), type(b))
        ia, ib = (unordered(a), unordered(b)) if fmt == 'v3' else (list(a.items()), list(b.items()))
        if len(ia) != len(ib):
            return '%s: %d items became %d: %s' % (path, len(ia), len(ib), oracle.short(b))
        for (k, v), (l, w) in zip(ia, ib):
            d = oracle.diff(k, l, path + '.key') or compare(v, w, fmt, '%s[%s]' % (path, oracle.short(k)))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and not oracle.plain_numbers(a):
        if type(a) is not type(b) or len(a) != len(b):
            return '%s: %s became %s' % (path, oracle.short(a), oracle.short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = compare(x, y, fmt, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) and a.dtype == object and a.size:
        if type(a) is not type(b) or a.shape != b.shape or b.dtype != object:
            return '%s: %s became %s' % (path, oracle.short(a), oracle.short(b))
        if a.ndim == 0:
            return compare(a[()], b[()], fmt, path)
    return oracle.diff(a, b, path)

def catalogue(r, fmt):
    """(kind, value) of everything the format distinguishes, one of each"""
    out = []
    add = lambda k, *v: out.extend((k, x) for x in v)
    add('scalar', None, True, False, 0, 1, -1, 2 ** 63 - 1, -2 ** 63, 2 ** 53 + 1, -(2 ** 60) - 1, 0.0, -0.0, 5e-324, 1.7976931348623157e308, float('inf'), float('-inf'), float('nan'), 0.1, 1 / 3, 0j, complex(0.1, -1e300), complex('nan'))
    add('text', '', ' ', 'a', ' a ', '\n', '\ta\n', 'ä', '中文', '\U0001f600', 'None', "it's", '"', '\\', '/', 'x' * 5000, b'a', b' ', b' a ', b'\n', b'\xff\xfe', b'\x80', b'a b\r\n', b'x' * 5000)
    for seq in (list, tuple):
        add('numbers', seq(), seq((1,)), seq((2 ** 62, -2 ** 63, 2 ** 53 + 1)), seq((True, False)), seq((True,)), seq((0.1, -0.0, float('inf'))), seq((1j, 2 + 0j)), seq((2.0,)), seq(range(300)), seq((0,)))
        add('texts', seq(('a',)), seq(('', 'b', '')), seq(('ä', 'bb', ' c ')), seq((b'a', b'bc ')), seq((b'\xff',)), seq('word'), seq(('x' * 400, 'y')))
        add('mixed', seq((1, 'a')), seq((None,)), seq((None, None)), seq((1, 1.0, True, 1 + 0j)), seq((seq(), seq((1,)), [], (), {}, set())), seq((seq((seq((seq((1, 'x')),)),)),)), seq((np.arange(3), np.float32(1.5), 'x')),
            seq(({'a': 1}, {'a': 2}, {})), seq(i if i % 2 else str(i) for i in range(120)), seq((b'x', 'x')), seq((u.Quantity(1.5, u.m), [u.Quantity(2.5, u.s)])))
    add('set', set(), {1}, {1, 2, 3}, {'a', 'b'}, {b'a'}, {None}, {1.5, 'x', None, b'y'}, {(1, 'a'), (2, 'b')}, {True}, {1j})
    keys = ['a', 'long key' * 9, ' ', ' k ', 'None', '1', '1.0', 'True', 'ä', '中', 'data_0', 'data', 'type', 0, -5, 10 ** 15, 0.5, 1e300, -2.0, float('inf'), True, 1j, 2 - 3j, None, (), (1,), (1, 'a', None), ((1, 2), (3.5,)), b'b', b'bytes key', 'x.y', '"']
    if fmt == 'v3':
        keys += ['a\u00a0b']       # the layout of 4.0 does not tell escapes from slashes
    else:
        keys += ['a/b', '/', '//a', b'a/b']
    for k in keys:
        if isinstance(k, float) and k == float('inf'):
            continue
        add('dict', {k: 1}, {k: {k: [k, 'v']}})
    add('dict', {}, {k: i for i, k in enumerate(keys) if not any(str(k) == str(o) or k == o for o in keys[:i])}, {'z': 1, 'a': 2, 'm': 3}, {i: str(i) for i in range(25)}, {'n': None, 'l': [], 't': (), 's': set(), 'd': {}, 'e': '', 'b': b'x'},
        {str(i): v for i, v in enumerate((1, True, 1.0, 1j, 'x', b'x', None, [1], (1,), {1}, np.arange(2)))})
    for dt in ('b1', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f2', 'f4', 'f8', 'c8', 'c16', 'g'):
        dt = np.dtype(dt)
        v = [True, False] if dt.kind == 'b' else [np.iinfo(dt).max, np.iinfo(dt).min, 3] if dt.kind in 'iu' else [0.1, -1.5, float('inf'), 1 / 3] if dt.kind == 'f' else [0.1 + 2.5j, -1j]
        if dt.char != 'g':
            add('npscalar', *(dt.type(x) for x in v))
            add('npdtype', dt, dt.newbyteorder('>'))
        for d in (dt, dt.newbyteorder('>')):
            a = np.array(v, dt).astype(d)
            if dt.char == 'g' and d != dt:
                continue
            add('array', a, a.reshape(1, -1), np.empty((0, 2), d), np.resize(a, (2, 3, 2)), np.asfortranarray(np.resize(a, (3, 2))), np.resize(a, 30)[::3])
            if d == dt:
                add('array', np.array(v[-1], dt))
            m = np.arange(a.size) % 2 == 1
            add('masked', np.ma.array(a, mask=m), np.ma.array(np.resize(a, (3, 2)), mask=np.resize(m, (3, 2))), np.ma.array(np.resize(a, (2, 2, 3)), mask=np.arange(12).reshape(2, 2, 3) % 5 == 0), np.ma.array(a), np.ma.array(a, mask=True))
    add('npdtype', np.dtype('S5'), np.dtype('S1'), np.dtype('O') if fmt == 'v4' else np.dtype('i4'))
    add('masked', np.ma.array(3.5, mask=True), np.ma.array(3.5, mask=False))
    if fmt == 'v4':
        add('strarray', np.array('a'), np.array(b'ab'), np.array(['a', 'bcd', '']), np.array([b'a', b'bcd']), np.array([['x', 'yy'], ['zzz', 'w']]), np.array(['']), np.array(['only ascii ' * 30]))
    for cls in (sp.csr_matrix, sp.csc_matrix):
        for dt in ('f8', 'i4', 'f4', 'c16', 'i8', 'u1'):
            a = np.zeros((5, 7), dt)
            a[1, 2], a[0, 4], a[3, 1] = 1, 2, 3     # last row and columns empty
            add('sparse', cls(a))
        add('sparse', cls((3, 4)), cls(np.eye(3)), cls((np.array([1., 0., 2.]), np.array([2, 0, 1]), np.array([0, 2, 3, 3])), shape=(3, 3)), cls((np.ones(1), np.array([0]), np.array([0] + [1] * 6)), shape=(6, 40) if cls is sp.csr_matrix else (40, 6)))
    for bs in ((2, 3), (1, 1), (4, 6), (2, 1)):
        b = sp.bsr_matrix(np.kron(np.array([[1, 0], [0, 0]]), np.arange(6).reshape(2, 3)) + np.zeros((4, 6)), blocksize=bs)
        add('sparse', b, b.astype('i4'), sp.bsr_matrix((8, 12), blocksize=bs))
    for un in (u.m, u.km / u.s, u.Jy, u.Unit('erg / (s cm2 AA)'), u.dimensionless_unscaled, u.kg ** 2, u.percent, u.deg, u.m ** 0.5):
        add('astropy', u.Quantity(1.25, un), u.Quantity([1.5, -0.0, 1e300], un), u.Quantity(np.arange(6.).reshape(2, 3), un))
    for un in (u.deg, u.rad, u.hourangle, u.arcmin, u.arcsec):
        add('astropy', Angle(0.1, un), Angle([0.1, -3.5], un))
    for form, val in (('mjd', 50000.25), ('jd', 2450000.75), ('cxcsec', 5e7), ('unix', 1e9), ('gps', 1e9), ('decimalyear', 2005.5), ('jyear', 2003.25), ('byear', 1950.5), ('plot_date', 7e5 + .5), ('isot', '1999-01-01T00:00:00.123'), ('iso', '1999-01-01 00:00:00.123'), ('yday', '2010:001:00:00:00.000'), ('fits', '2000-01-01T00:00:00.000')):
        for scale in ('utc', 'tai', 'tt', 'tdb', 'tcb', 'tcg', 'ut1'):
            if isinstance(val, str) or form in ('mjd', 'jd', 'jyear', 'decimalyear', 'byear') or scale in ('utc', 'tai', 'tt'):
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    add('astropy', Time([val, val], format=form, scale=scale), *([] if isinstance(val, str) else [Time(val, format=form, scale=scale)]))
    for a, b in ((u.deg, u.deg), (u.hourangle, u.deg), (u.rad, u.deg), (u.rad, u.rad), (u.deg, u.arcmin)):
        add('astropy', SkyCoord(1.25, 0.5, unit=(a, b)), SkyCoord([1.25, 2.5], [0.5, -0.25], unit=(a, b)), SkyCoord([[1.25, 2.5], [3., 4.]], [[0.5, -0.25], [0., 1.]], unit=(a, b)))
    for c in (C.c, C.h, C.k_B, C.m_e, C.G, C.cgs.e, C.si.e, C.M_sun, C.au, C.sigma_T):
        if c.system is not None and isinstance(c.reference, str):
            add('astropy', C.Constant(c.abbrev, c.name, c.value, str(c.unit), c.uncertainty, c.reference, c.system))
    tab = {'a': np.arange(3, dtype='i4'), 'b': np.array([0.1, -0.0, 2.5]), 'flag': np.array([True, False, True])}
    for meta in ({}, {'name': 'x'}, {'title': 'ä', 'n': 3, 'f': 0.1}, {'unit': 'm', 'format': 'q', 'shape': 2}, {'b name': '', 'dtype': 'f8'}):
        add('astropy', Table(tab, meta=meta))
    add('astropy', Table({'single': np.array([b'ab', b'c'])}), Table({'v': np.arange(6.).reshape(3, 2)}), Table({'big': np.arange(3, dtype='>f4')}) if False else Table({'u': np.arange(3, dtype='u8')}))
    add('pickle', frozenset(), frozenset((1, 'a')), T.Plain(x=1), range(2, 9, 3), Ellipsis, slice(None), collections.deque([1, 'x']), bytearray(b'ab'), 1.5 .__class__, NotImplemented)
    if fmt == 'v4':
        add('subclass', collections.OrderedDict(z=1, a=[2, 'x']), collections.OrderedDict(), T.ListSub([1, 'x']), T.ListSub([1, 2]), T.ListSub())
        for x in ('text', {'k': 1}):
            a = np.empty(3, object)
            a[:] = [x, None, {'k': (1, 'z')}]
            add('objarray', a)
    return out


def whole_catalogue(ctx, r, fmt):
    """one old file holding everything the format distinguishes at paths of their own, and once more in one list"""
    items = catalogue(r, fmt)
    r.shuffle(items)
    old = Old.__new__(Old)
    old.fmt, old.p = fmt, ctx.path()
    old.objs = {'/c%d' % i: v for i, (_, v) in enumerate(items)}
    old.objs['/all'] = [v for _, v in items]
    old.objs['/part'] = {'k%d' % i: v for i, (_, v) in enumerate(items[:200])}
    write(r, ctx, fmt, old.p, old.objs, {}, r.choice(('4.0.0', '4.0.1', '4.0.4')))
    for k, _ in items:
        ctx.event('%s:%s' % (fmt, k))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with h5py.File(old.p, 'r') as f:
            for path in old.objs:
                old.check(ctx, path, hk.load(ctx, f, old.objs[path], path=path), 'catalogue')
    ctx.event('catalogue:' + fmt)


def digest(p):
    with open(p, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def logical(f):
    """everything a reader can see of an HDF5 file"""
    out = []

    def one(name, o):
        v = None
        if isinstance(o, h5py.Dataset):
            v = (str(o.dtype), o.shape, repr(o[()]) if o.shape is not None else None)
        out.append((name, v, sorted((k, repr(x)) for k, x in o.attrs.items())))
    one('/', f)
    f.visititems(one)
    return out


def write(r, ctx, fmt, p, objs, opts, version):
    with h5py.File(p, 'w') as f:
        for path, obj in objs.items():
            if fmt == 'v3':
                W.v3_dump(obj, f, path, **opts)
            else:
                W.v4_dump(obj, f, path, version=version, python=r.choice(('3.5.2', '3.6.8', '3.7.4')), **opts)


class Old:
    """one old file and what was dumped into it"""

    def __init__(self, ctx, r, fmt, p, kind=None):
        self.fmt, self.p, self.kinds = fmt, p, set()
        opts = r.choice(({}, {}, dict(compression='gzip'), dict(compression='lzf', shuffle=True)))
        npath = r.choice((0, 0, 1, 2, 3))
        paths = ['/'] if not npath else r.sample(['/test', '/data', '/a', '/deep/er', '/deep/est/one', '/x y'], npath)
        self.objs = {q: value(r, fmt, 3, kind if i == 0 else None, self.kinds) for i, q in enumerate(paths)}
        version = r.choice(('4.0.0', '4.0.0', '4.0.1', '4.0.2', '4.0.4'))
        try:
            write(r, ctx, fmt, p, self.objs, opts, version)
        except TypeError as e:
            if not opts or 'Scalar datasets' not in str(e) and 'Chunk' not in str(e):
                raise
            # these releases refused compressed zero dimensional data
            opts = {}
            write(r, ctx, fmt, p, self.objs, opts, version)
        ctx.event('compressed' if opts else 'uncompressed')
        ctx.event('root' if paths == ['/'] else 'one-path' if len(paths) == 1 else 'multi-path')
        if fmt == 'v4':
            ctx.event('version:' + version)
        for k in self.kinds:
            ctx.event('%s:%s' % (fmt, k))

    def check(self, ctx, path, got, how):
        d = compare(self.objs[path], got, self.fmt)
        if d:
            raise Violation('%s file, path %s, loaded by %s: %s (dumped: %s)' % (self.fmt, path, how, d, oracle.short(self.objs[path])))
        ctx.event('compared')
        ctx.evaluated('%s %s %s' % (self.fmt, how, oracle.signature(self.objs[path])), True, '%s %s: %s' % (self.fmt, path, oracle.short(self.objs[path])))


def spell(r, path):
    return path if path == '/' else r.choice((path, path[1:], path + '/' if r.random() < .3 else path))


def load_one(ctx, r, old, path, how):
    p, ap = old.p, spell(r, path)
    if how == 'name':
        return hk.load(ctx, p, old.objs[path], path=ap)
    if how == 'path':
        return hk.load(ctx, pathlib.Path(p), old.objs[path], path=ap)
    if how.startswith('file-'):
        mode = how[5:]
        with h5py.File(p, mode) as f:
            before = logical(f)
            res = hk.load(ctx, f, old.objs[path], path=ap)
            if not f.id.valid:
                raise Violation('load closed the file the caller passed')
            if logical(f) != before:
                raise Violation('load changed the content of a file opened %r' % mode)
            ctx.event('content-unchanged')
        return res
    if how == 'group':
        with h5py.File(p, 'r') as f:
            return hk.load(ctx, f[path], old.objs[path])
    if how == 'fileobj':
        with open(p, 'rb') as f:
            return hk.load(ctx, f, old.objs[path], path=ap)
    if how == 'bytesio':
        with open(p, 'rb') as f:
            b = io.BytesIO(f.read())
        return hk.load(ctx, b, old.objs[path], path=ap)
    raise AssertionError(how)


FRESH = """
import sys, pickle, warnings
warnings.simplefilter('ignore')
import hickle
name, paths, out = sys.argv[1], sys.argv[2].split('|'), sys.argv[3]
res = []
for p in paths:
    try:
        res.append((True, hickle.load(name, path=p)))
    except Exception as e:
        res.append((False, '%s: %s' % (type(e).__name__, str(e)[:300])))
with open(out, 'wb') as f:
    pickle.dump(res, f)
"""


def fresh(ctx, r, old):
    """the first loads of a process which imported nothing but hickle"""
    paths = r.sample(list(old.objs), len(old.objs))
    out = ctx.path('.pickle')
    env = dict(os.environ, PYTHONPATH=os.pathsep.join((core.REPO, core.VERIF)))
    p = subprocess.run([sys.executable, '-c', FRESH, old.p, '|'.join(paths), out], env=env, cwd=ctx.scratch, capture_output=True, text=True, timeout=120)
    if p.returncode:
        raise Violation('loading in a new process failed: %s (dumped %s)' % (p.stderr[-600:], oracle.short(old.objs)))
    with open(out, 'rb') as f:
        res = pickle.load(f)
    os.remove(out)
    # the way back from that process is a pickle, which does not keep everything (byte order)
    old.objs = pickle.loads(pickle.dumps(old.objs))
    for path, (ok, got) in zip(paths, res):
        if not ok:
            raise Violation('%s file, path %s, loaded in a new process: %s (dumped: %s)' % (old.fmt, path, got, oracle.short(old.objs[path])))
        old.check(ctx, path, got, 'new process')
    ctx.event('fresh:' + old.fmt)


def shipped(ctx, r):
    where = r.choice((os.path.join(core.VERIF, 'golden', 'legacy'), os.path.join(core.REPO, 'hickle', 'tests', 'legacy_hkls')))
    p = ctx.path()
    if r.random() < .5:
        shutil.copy(os.path.join(where, 'hickle_3_4_9.hkl'), p)
        old = Old.__new__(Old)
        old.p, old.fmt = p, 'v3'
        old.objs = {'/test': {'dog_breed': b'Chihuahua', 'age': 10, 'height': 1.1, 'nums': [1, 2, 3], 'narr': np.array([1, 2, 3], 'i4')}}
        old.check(ctx, '/test', load_one(ctx, r, old, '/test', r.choice(('name', 'path', 'file-r', 'file-r+'))), 'shipped')
        ctx.event('shipped:3')
        return
    shutil.copy(os.path.join(where, 'hickle_4.0.0.hkl'), p)
    s = 'this is some string to be dumped by hickle 4.0.0'
    b = b'this is the same in bytes instead of utf8'
    words = ['hello', 'world', 'i', 'like', 'you']
    mixus = [s, tuple(range(50)), 12, 11]
    row, col, d = np.array([0, 0, 1, 2, 2, 2]), np.array([0, 2, 2, 0, 1, 2]), np.array([1, 2, 3, 4, 5, 6])
    want = {0: s, 1: b, 2: list(s), 3: list(b), 4: tuple(range(50)), 5: tuple(float(i) for i in range(50)), 7: words, 8: [w.encode() for w in words], 9: mixus,
            13: {'string': 1, b'bytes': 2, 12: 3, 0.55: 4, complex(1, 4): 5, (1,): 6, tuple(mixus): 7, (): 8, '9': 9, None: 10, 'a/b': 11},
            14: collections.OrderedDict(((3, [3, 0.1]), (7, [5, 0.1]), (5, [3, 0.1]))),
            15: sp.csr_matrix((d, (row, col)), shape=(3, 3)), 16: sp.csc_matrix((d, (row, col)), shape=(3, 3)),
            17: sp.bsr_matrix((d.repeat(4).reshape(6, 2, 2), np.array([0, 2, 2, 0, 1, 2]), np.array([0, 2, 3, 6])), shape=(6, 6)),
            18: np.array(s), 19: np.array(b), 20: np.array(words), 21: np.array({})}
    how = r.choice(('name', 'path', 'file-r', 'file-r+', 'fileobj', 'bytesio', 'group'))
    old = Old.__new__(Old)
    old.p, old.fmt, old.objs = p, 'v4', {'/': want}
    before = digest(p)
    got = load_one(ctx, r, old, '/', how)
    if type(got) is not list or len(got) != 22:
        raise Violation('shipped 4.0.0 file: %s items' % oracle.short(got))
    for i, v in want.items():
        d = compare(v, got[i], 'v4')
        if d:
            raise Violation('shipped 4.0.0 file, item %d: %s' % (i, d))
    if got[10].shape != (7, 11) or got[10].dtype != 'f8' or abs(got[10].sum() - 38.09) > 2 or got[10][0, 0] != 0.8918443906408066 or got[10][6, 10] != 0.860146852430476:
        raise Violation('shipped 4.0.0 file, item 10: %s' % oracle.short(got[10]))
    if not np.array_equal(got[12].mask, got[11].astype(bool)) or not np.array_equal(got[12].data, got[10].astype('f4')) or got[12].dtype != 'f4' or got[11].sum() != 40:
        raise Violation('shipped 4.0.0 file: masked array %s %s' % (got[11].sum(), oracle.short(got[12])))
    ctx.event('shipped:4')
    ctx.event('compared')
    ctx.evaluated('shipped4 ' + how, True)


def case(ctx):
    r = ctx.rng
    if ctx.index in (3, 5) or ctx.thorough and ctx.index % 100 in (3, 5):
        return whole_catalogue(ctx, r, FORMATS[ctx.index % 4 // 2])
    if ctx.index % 12 == 11:
        return shipped(ctx, r)
    fmt = FORMATS[ctx.index % 2]
    kinds = V3 if fmt == 'v3' else KINDS
    os.makedirs(os.path.join(ctx.scratch, 'one'))
    os.makedirs(os.path.join(ctx.scratch, 'two'))
    old = Old(ctx, r, fmt, os.path.join(ctx.scratch, 'one', 'same.hkl'), kinds[(ctx.index // 2 + ctx.index // 36) % len(kinds)])
    # files the overlay for references must not touch
    for f in ('same.hover', 'same.hkl.hover'):
        if r.random() < .3:
            with open(os.path.join(ctx.scratch, 'one', f), 'wb') as h:
                h.write(b'precious')
            ctx.event('overlay-guard')
    other = Old(ctx, r, r.choice(FORMATS), os.path.join(ctx.scratch, 'two', 'same.hkl'))
    if r.random() < .2:
        os.chdir(os.path.join(ctx.scratch, 'two'))
    snapshot = lambda: {os.path.join(d, n): digest(os.path.join(d, n)) for d, _, ns in os.walk(ctx.scratch) for n in ns}
    before = snapshot()
    touched = set()
    if ctx.index % 24 in (4, 9) or ctx.thorough and ctx.index % 5 == 0:
        dumped = old.objs
        fresh(ctx, r, old)
        old.objs = dumped
    for _ in range(r.randint(2, 4)):
        x = old if r.random() < .75 else other
        if x is other:
            ctx.event('interleaved')
        path = r.choice(list(x.objs))
        hows = ('name', 'name', 'path', 'file-r', 'file-r+') + (('group', 'fileobj', 'bytesio') if x.fmt == 'v4' else ())
        how = r.choice(hows)
        if how == 'file-r+':
            touched.add(x.p)
        for n in range(r.choice((1, 1, 2))):
            x.check(ctx, path, load_one(ctx, r, x, path, how), how)
            if n:
                ctx.event('repeat')
        ctx.event('target:%s:%s' % (x.fmt, how))
        after = snapshot()
        # opening for writing may itself touch the superblock: the content was compared above
        for p in touched:
            before[p] = after.get(p)
        if after != before:
            raise Violation('loading a %s file by %s changed files: %s' % (x.fmt, how, sorted(set(after.items()) ^ set(before.items()))))
        ctx.event('file-unchanged')
    if fmt == 'v4' and r.random() < .3 and '/' not in old.objs:
        # a current dump next to what hickle 4.0 wrote
        new = gen.rvalue(r, 2)
        hk.dump(ctx, new, old.p, mode='a', path='/brand/new')
        for path in r.sample(list(old.objs), len(old.objs)) + [list(old.objs)[0]]:
            old.check(ctx, path, load_one(ctx, r, old, path, 'name'), 'mixed file')
            d = oracle.diff(new, hk.load(ctx, old.p, new, path='/brand/new'))
            if d:
                raise Violation('current dump beside 4.0 content: %s' % d)
        ctx.event('mixed-file')

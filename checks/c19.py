"""C19: the file layout: files of a reference writer load, files written decode with a reference reader, old files load."""
import hashlib, io, json, os, pickle, random, subprocess, sys, warnings, zipfile
import h5py, numpy as np
import hickle
from checks import c05, c12, c13
from vmon import core, customs, gen, hk, oracle, ref_format as F, types_for_tests as T
from vmon.core import Violation

ID = 'C19'
LEVEL = 'exploration'
GOLDEN = (('scalar', 6, 30), ('text', 6, 30), ('nested', 24, 6), ('keys', 10, 4), ('array', 24, 8), ('masked', 8, 8), ('sparse', 8, 5), ('subclass', 8, 6), ('pickled', 6, 8), ('astropy', 16, 5), ('custom', 4, 4), ('mixed', 20, 8))
NGOLD = sum(g[1] for g in GOLDEN)
NCASES = {'quick': NGOLD + 420, 'thorough': NGOLD + 9000}
MIN_DISTINCT = {'quick': 1200, 'thorough': 12000}
BASES = ['None:dataset', 'bool:dataset', 'int:dataset', 'float:dataset', 'complex:dataset', 'str:dataset', 'bytes:dataset', 'list:dataset', 'list:group', 'tuple:dataset', 'tuple:group', 'set:dataset', 'set:group', 'dict:group',
         'np_scalar:dataset', 'np_dtype:dataset', 'ndarray:dataset', 'ndarray:group', 'np_matrix:dataset', 'np_matrix:group', 'ndarray_masked:group', 'csr_matrix:group', 'csc_matrix:group', 'bsr_matrix:group', 'pickle', 'reference']
REQUIRED = (['decoded:' + b for b in BASES] + ['golden:' + g[0] for g in GOLDEN] + ['encoded:' + k for k in ('builtin', 'numpy', 'sparse', 'subclass', 'pickled', 'mixed')]
            + ['golden-twice', 'golden-fresh', 'root-attributes', 'compressed', 'sub-path', 'release-object-array', 'appended', 'plain-array', 'compared', 'many-items'])
RULE = ('(1) random structures over all built-in, NumPy and sparse types, subclasses and pickled objects are laid out by a reference encoder of the 5.x layout and loaded; (2) the same kinds of structures are dumped and read by a '
        'reference decoder which refuses any deviation from the layout (version attributes, type table, names and indices of items, plain datasets for numbers); both are written against h5py only; (3) %d files written by the original '
        'revision of this release line are loaded and compared with the values they hold; distinct by direction, structure and options' % NGOLD)
ASSUMPTIONS = ['the layout is the one release 5.0.3 writes, as described by vmon/ref_format.py; additional attributes are allowed',
               'astropy objects and classes with loaders of their own are covered by files of the original revision only']
TECHNIQUE = 'runtime monitoring: differential execution against an independent reference encoder and decoder of the file layout, and replay of recorded files'
ASTROPY = ('astropy.',)


class Quiet:
    def event(self, *a):
        pass


def has_astropy(x, depth=6):
    if type(x).__module__.startswith('astropy.'):
        return True
    if depth and type(x) in (list, tuple):
        return any(has_astropy(i, depth - 1) for i in x)
    if depth and type(x) is dict:
        return any(has_astropy(i, depth - 1) for i in x.values())
    return False


def same(a, b, path='obj'):
    """None or the difference"""
    if not has_astropy(a):
        if type(a) is T.Custom:
            return None if type(b) is T.Custom and not oracle.diff(a.v, b.v) else '%s: custom object differs' % path
        if type(a) in (list, tuple) and any(type(i) is T.Custom for i in a) or type(a) is dict and any(has_custom(i) for i in a.values()) or has_custom(a):
            pass
        else:
            return oracle.diff(a, b, path)
    if type(a) is not type(b):
        return '%s: %s became %s' % (path, type(a), type(b))
    if type(a) in (list, tuple):
        if len(a) != len(b):
            return '%s: length' % path
        pairs = [(i, x, y) for i, (x, y) in enumerate(zip(a, b))]
    elif type(a) is dict:
        if list(a) != list(b):
            return '%s: keys differ' % path
        pairs = [(k, a[k], b[k]) for k in a]
    else:
        d = c05.compare(a, b)
        return '%s: %s' % (path, d) if d else None
    for k, x, y in pairs:
        d = same(x, y, '%s[%r]' % (path, k))
        if d:
            return d
    return None


def has_custom(x, depth=6):
    if type(x) is T.Custom:
        return True
    if depth and type(x) in (list, tuple):
        return any(has_custom(i, depth - 1) for i in x)
    if depth and type(x) is dict:
        return any(has_custom(i, depth - 1) for i in x.values())
    return False


SUBS = [lambda r, v: T.ListSub(v), lambda r, v: T.TupleSub(v), lambda r, v: T.SetSub(gen.rset(r)), lambda r, v: T.DictSub({str(i): x for i, x in enumerate(v)}), lambda r, v: T.StrSub(gen.rstr(r, 30)),
        lambda r, v: T.BytesSub(gen.rbytes(r, 30)), lambda r, v: T.IntSub(gen.rint(r)), lambda r, v: T.FloatSub(gen.rfloat(r)), lambda r, v: T.ComplexSub(gen.rcomplex(r)), lambda r, v: T.OrderedSub((i, x) for i, x in enumerate(v))]
PICK = ('frozenset', 'datetime', 'number', 'enum', 'dataclass', 'instance')


def pickled(r):
    while True:
        kind, make = r.choice(c12.mk(r))
        if kind in PICK:
            v = make()
            if type(v).__module__ != 'vmon_runtime_module':
                return v


def golden_value(kind, r):
    if kind == 'scalar':
        return r.choice((gen.rscalar, gen.rnumber, gen.rnpscalar, gen.rdtype))(r)
    if kind == 'text':
        return r.choice((gen.rstr, gen.rbytes, lambda r: gen.rstrarray(r, r.choice('US'), gen.rshape(r, 2, 12))))(r)
    if kind == 'nested':
        return gen.rvalue(r, r.randint(2, 4))
    if kind == 'keys':
        return gen.rdict(r, gen.rscalar, r.randint(1, 30))
    if kind == 'array':
        return gen.rarray(r)
    if kind == 'masked':
        return r.choice((gen.rmasked, gen.rmasked, gen.rmatrix))(r)
    if kind == 'sparse':
        return gen.rsparse(r)
    if kind == 'subclass':
        return r.choice(SUBS)(r, [gen.rscalar(r) for _ in range(r.randint(0, 6))])
    if kind == 'pickled':
        return pickled(r)
    if kind == 'astropy':
        return c05.gen_obj(Quiet(), r, r.randrange(7))
    if kind == 'custom':
        return T.Custom(gen.rvalue(r, 2))
    return r.choice((lambda r: gen.rvalue(r, 3), gen.rnumpy, gen.rsparse, pickled, gen.rarray, lambda r: gen.rvalue(r, 2, lambda r: gen.rnumpy(r) if r.random() < .3 else gen.rscalar(r))))(r)


# ------------------------------------------------------------------------------- generation

def leaf(r, kind):
    if kind == 'builtin':
        return gen.rscalar(r)
    if kind == 'numpy':
        return gen.rnumpy(r)
    if kind == 'sparse':
        return gen.rsparse(r)
    if kind == 'subclass':
        return r.choice(SUBS)(r, [gen.rscalar(r) for _ in range(r.choice((0, 1, 2, 3, 12)))])
    if kind == 'pickled':
        return pickled(r)
    return leaf(r, r.choice(('builtin', 'builtin', 'numpy', 'numpy', 'sparse', 'subclass', 'pickled')))


def value(r, kind):
    v = [leaf(r, kind) for _ in range(r.choice((1, 2, 3, 5, 12)))] if kind != 'builtin' or r.random() < .2 else gen.rvalue(r, r.randint(1, 4))
    k = r.randrange(7)
    if kind == 'builtin' or k == 0:
        pass
    elif k == 1:
        v = tuple(v)
    elif k == 2:
        v = gen.rdict(r, lambda r: r.choice(v), r.randint(1, 12))
    elif k == 3:
        v = {'a': v, 'b': [v[0], v], 'c': v[-1]}        # shared
    elif k == 4:
        v = v[0]
    elif k == 5:
        v = gen.rvalue(r, 3, lambda r: leaf(r, kind))
    else:
        v = [gen.rvalue(r, 2), v, {(1, 'k'): v[0]}]
    return v


def nested_seq(x):
    """object arrays the release line laid out ambiguously: items which are sequences or arrays, no items, strings"""
    def bad(a):
        return a.size == 0 or any(isinstance(i, (list, tuple, np.ndarray, set)) or hasattr(i, '__len__') and not isinstance(i, (str, bytes, dict)) for i in a.reshape(-1).tolist())
    found = []

    def walk(x, depth=12):
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                found.append(bad(x))
            return
        if depth and isinstance(x, (list, tuple)):
            for i in x:
                walk(i, depth - 1)
        elif depth and isinstance(x, dict):
            for k, v in x.items():
                walk(k, depth - 1), walk(v, depth - 1)
    walk(x)
    return found


def digest(fn):
    return hashlib.sha256(open(fn, 'rb').read()).hexdigest()


def compare(ctx, a, b, what):
    d = same(a, b)
    if d:
        raise Violation('%s: %s' % (what, d))
    ctx.event('compared')


def golden(ctx, n):
    z = zipfile.ZipFile(os.path.join(core.VERIF, 'golden', 'v5.zip'))
    index = json.loads(z.read('index.json'))
    if n >= len(index):
        return
    entry = index[n]
    fn = ctx.path()
    with open(fn, 'wb') as f:
        f.write(z.read(entry['name'] + '.hkl'))
    customs.register()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        expected = pickle.loads(z.read(entry['name'] + '.pkl'))
    before = digest(fn)
    compare(ctx, expected, hk.load(ctx, fn, about='golden file %s' % entry['name'], path=entry['path']), 'file %s of the original revision' % entry['name'])
    ctx.event('golden:' + entry['kind'])
    with h5py.File(fn, 'r') as f:
        b = hk.load(ctx, f, about='golden file %s' % entry['name'], path=entry['path'])
        compare(ctx, expected, b, 'file %s of the original revision, open file' % entry['name'])
    ctx.event('golden-twice')
    if digest(fn) != before:
        raise Violation('loading file %s of the original revision changed it' % entry['name'])
    if ctx.index % 12 == 0 and entry['kind'] != 'custom':   # in a process that did nothing else before
        code = ('import sys, pickle, warnings\nsys.path[:0] = %r\nwarnings.simplefilter("ignore")\nimport hickle\nv = hickle.load(%r, path=%r)\npickle.dump(v, open(%r, "wb"), 5)\n'
                % ([core.REPO, core.VERIF], fn, entry['path'], fn + '.out'))
        p = subprocess.run([sys.executable, '-B', '-c', code], capture_output=True, text=True, timeout=200)
        if p.returncode:
            raise Violation('file %s of the original revision in a fresh process: %s' % (entry['name'], p.stderr[-600:]))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            compare(ctx, expected, pickle.load(open(fn + '.out', 'rb')), 'file %s of the original revision in a fresh process' % entry['name'])
        ctx.event('golden-fresh')
    ctx.evaluated('golden/' + entry['name'], True, entry['name'])


OPTS = ({}, {}, dict(compression='gzip'), dict(compression='lzf'), dict(compression='gzip', compression_opts=9, shuffle=True), dict(chunks=True, fletcher32=True))


def encode(ctx, r, kind):
    v = value(r, kind)
    opts = r.choice(OPTS)
    path = r.choice(('/', '/', '/', '/g', '/a/b c'))
    ambiguous = nested_seq(v)
    shape = r.random() < .6 or any(ambiguous)
    fn = ctx.path()
    with h5py.File(fn, 'w') as f:
        F.Encoder(f, path, r.choice(('5.0.0', '5.0.1', '5.0.2', '5.0.3')), r.choice(('3.6.9', '3.7.12', '3.9.7', '3.12.3')), np_shape=shape, **opts).encode(v)
        if path != '/' and r.random() < .5:
            F.Encoder(f, '/other').encode(['other'])
    before = digest(fn)
    b = hk.load(ctx, fn, about=v, path=path)
    compare(ctx, v, b, 'file laid out by the reference writer holding %s' % oracle.short(v))
    d, n = oracle.alias_diff(v, b) if not any(ambiguous) else (None, 0)
    if d:
        raise Violation('file laid out by the reference writer holding %s: %s' % (oracle.short(v), d))
    if digest(fn) != before:
        raise Violation('loading changed the file')
    ctx.event('encoded:' + kind)
    if ambiguous and not shape:
        ctx.event('release-object-array')
    ctx.evaluated('e/%s/%s/%s' % (sorted(opts), path, oracle.signature(v)), True, oracle.short(v))


def decode(ctx, r, kind):
    v = value(r, kind)
    opts = r.choice(OPTS)
    path = r.choice(('/', '/', '/', '/g', '/a/b c'))
    fn = ctx.path()
    hk.dump(ctx, v, fn, path=path, **opts)
    appended = None
    if path != '/' and r.random() < .5:
        appended = value(r, 'builtin')
        hk.dump(ctx, appended, fn, path='/second', mode='r+', **opts)
        ctx.event('appended')
    read(ctx, fn, path, v)
    if appended is not None:
        read(ctx, fn, '/second', appended)
    if opts:
        ctx.event('compressed')
    if path != '/':
        ctx.event('sub-path')
    ctx.evaluated('d/%s/%s/%s' % (sorted(opts), path, oracle.signature(v)), True, oracle.short(v))


def read(ctx, fn, path, v):
    with h5py.File(fn, 'r') as f:
        try:
            d = F.Decoder(f, path, lambda kind: ctx.event('decoded:' + kind))
            others = d.check_root(version=hickle.__version__, python='%d.%d.%d' % sys.version_info[:3])
            ctx.event('root-attributes')
            b = d.decode()
        except F.FormatError as e:
            raise Violation('file written for %s deviates from the layout: %s' % (oracle.short(v), e))
        except Exception as e:
            raise Violation('file written for %s can not be decoded: %s: %s' % (oracle.short(v), type(e).__name__, e))
        if [k for k in others if k not in ('a', 'g', 'second')]:
            raise Violation('file written for %s holds unknown nodes %s' % (oracle.short(v), others))
        compare(ctx, v, b, 'file written for %s read by the reference reader' % oracle.short(v))
        df, n = oracle.alias_diff(v, b)
        if df:
            raise Violation('file written for %s read by the reference reader: %s' % (oracle.short(v), df))
        if isinstance(v, np.ndarray) and type(v) is np.ndarray and v.dtype.kind in 'biufc' and path == '/':
            h = f['data']       # any HDF5 tool can read it
            if h.shape != v.shape or h.dtype != (v.dtype.newbyteorder('=') if v.dtype.char == 'G' else v.dtype) or np.array(h[()], v.dtype).tobytes() != v.tobytes() and v.dtype.char not in 'gG':
                raise Violation('array %s is not stored as plain dataset' % oracle.short(v))
            ctx.event('plain-array')


KINDS = ('builtin', 'numpy', 'mixed', 'builtin', 'sparse', 'subclass', 'mixed', 'pickled', 'numpy')


def case(ctx):
    if ctx.index < NGOLD:
        return golden(ctx, ctx.index)
    r = ctx.rng
    if ctx.index % 100 == 50:       # many items
        n = r.choice((1100, 2100, 2600))
        v = [None if j % 3 else 'text %d' % j if j % 2 else j for j in range(n)]
        v = r.choice((v, tuple(v), {'k%d' % j: x for j, x in enumerate(v)}, {j if j % 2 else b'b%d' % j: x for j, x in enumerate(v)}))
        fn = ctx.path()
        hk.dump(ctx, v, fn)
        read(ctx, fn, '/', v)
        ctx.event('many-items')
        ctx.evaluated('many/%s%d' % (type(v).__name__, n), True)
        return
    for n in range(2):
        kind = KINDS[(ctx.index + n) % len(KINDS)]
        with np.errstate(all='ignore'):
            encode(ctx, r, kind)
            decode(ctx, r, kind)
            if (ctx.index + n) % 6 == 0:
                a = gen.fill_numeric(r, r.choice(gen.NUM_DTYPES), gen.rshape(r))
                fn = ctx.path()
                hk.dump(ctx, a, fn)
                read(ctx, fn, '/', a)
                ctx.evaluated('plain/%s%s' % (a.dtype.str, a.shape), True)

"""C07: compression and other dataset options never change data and are applied."""
import h5py, numpy as np
from vmon import gen, hk, oracle, ref_format, types_for_tests as T
from vmon.core import Violation

ID = 'C07'
LEVEL = 'exploration'
NCASES = {'quick': 240, 'thorough': 6000}
MIN_DISTINCT = {'quick': 200, 'thorough': 4000}
REQUIRED = ['compared', 'filter-checked', 'string-filter-checked', 'pickle-filter-checked', 'opt:gzip', 'opt:lzf', 'opt:shuffle', 'opt:fletcher32', 'opt:level', 'array:numeric', 'array:nested', 'list-dataset', 'scalar', 'empty', 'astropy', 'sparse', 'kwargs-untouched', 'both-refused',
            'walked:array', 'walked:list', 'walked:text', 'walked:pickle', 'walked:digits', 'walked:astropy', 'walked-deep:array', 'walked-deep:list', 'walked-deep:text', 'walked-deep:pickle']
RULE = ('random nested objects (built-in, NumPy, SciPy, astropy, pickled) dumped without options and with every combination of gzip (levels 0-9) / lzf / none, shuffle and fletcher32; results compared with each other and with '
        'the input, and the filters of every numeric array of one or more dimensions, string and pickle dataset read back from the file; distinct by option set and structure')
ASSUMPTIONS = ['options h5py itself rejects for all data (e.g. unknown compression) are not accepted by dump']


def options(r):
    kw = {}
    k = r.randrange(4)
    if k == 0:
        kw['compression'] = 'gzip'
    elif k == 1:
        kw['compression'] = 'gzip'
        kw['compression_opts'] = r.randrange(10)
    elif k == 2:
        kw['compression'] = 'lzf'
    if r.random() < .5 or not kw:
        kw['shuffle'] = True
    if r.random() < .35:
        kw['fletcher32'] = True
    return kw


def robject(ctx, r):
    out = {}
    a = gen.fill_numeric(r, r.choice([d for d in gen.NUM_DTYPES]), r.choice(((7,), (100,), (3, 4), (2, 3, 4), (1,), (2000,), (50, 60))))
    out['num'] = gen.layout(r, a)
    ctx.event('array:numeric')
    out['nested'] = [gen.fill_numeric(r, 'f8', (r.randint(1, 50),)), {'x': gen.fill_numeric(r, 'i4', (5, 5))}]
    ctx.event('array:nested')
    out['vals'] = gen.rvalue(r, 3)
    out['scalars'] = [gen.rscalar(r) for _ in range(6)] + [gen.rnpscalar(r) for _ in range(3)]
    ctx.event('scalar')
    out['str'] = gen.rstr(r) or 'x'
    out['text'] = 'text é ' * r.choice((1, 50, 3000))
    out['bytes'] = bytes(r.getrandbits(8) for _ in range(r.choice((1, 40, 3000))))
    out['nums'] = [gen.rsmallint(r) for _ in range(r.choice((1, 30, 400)))]
    out['floats'] = tuple(r.random() for _ in range(r.choice((1, 30, 400))))
    ctx.event('list-dataset')
    out['set'] = gen.rset(r)
    out['big'] = [gen.rint(r) << 90, 'x']
    # arrays in every kind of container
    num = lambda: gen.fill_numeric(r, r.choice(('f8', 'i2', '?', 'c16', '>i4')), r.choice(((3,), (40,), (2, 9))))
    o = np.empty(3, object)
    o[0], o[1], o[2] = num(), T.Data(2, list(range(r.randrange(50)))), [num(), 'text %d' % r.randrange(9)]
    out['held'] = {(1, 'pair'): num(), b'b': (num(), 'x'), 5: T.ListSub([num(), 'y']), None: T.DictSub({'k': num()}), 'o': o, (2, 'pair'): [T.Data(3, 'p'), 'deep', [1, 2, 3]],
                   'masked': np.ma.array(num(), mask=False), 'part': np.ma.masked_array([1., 2, 3], [0, 1, 0]), 'matrix': np.matrix(np.arange(6.).reshape(2, 3)), 'strs': np.array(['ab', 'c'])}
    out['pickled'] = [T.Data(1, [2] * 50), frozenset({1, 2, 3}), T.func, T.Color.RED]
    out['empty'] = [[], (), {}, set(), '', b'', np.array([]), np.zeros((0, 3)), np.array([], 'U1'), np.array([], dtype=object), None, np.array(1.5), np.array('x'), np.array(b'y')]
    ctx.event('empty')
    out['np'] = [x for x in (gen.rnumpy(r) for _ in range(4))]
    if r.random() < .5:
        out['sparse'] = gen.rsparse(r)
        ctx.event('sparse')
    if r.random() < .4:
        from astropy import units as u
        from astropy.time import Time
        from astropy.coordinates import Angle, Latitude, SkyCoord
        from astropy.table import Table
        n = r.choice((1, 2, 30, 500))
        v = np.array([r.uniform(0, 80) for _ in range(n)])
        out['astro'] = [u.Quantity(v, 'm'), u.Quantity(v.reshape(1, -1), 'km'), 3 * u.km, u.Quantity([], 's'), Angle(v, 'deg'), Angle(1.5, 'rad'), Latitude(v, 'deg'), Angle([], 'deg'),
                        Time(50000 + v, format='mjd'), Time(50000.5, format='mjd'), Time('2020-01-01'), Time(['2020-01-01', '2021-02-03']),
                        SkyCoord(v, v, unit='deg'), SkyCoord(1.5, 2.5, unit='deg'), Table({'a': v, 'b': np.arange(n)})]
        ctx.event('astropy')
    items = list(out.items())
    r.shuffle(items)
    return dict(items)


def filters_of(ds):
    return dict(compression=ds.compression, compression_opts=ds.compression_opts, shuffle=bool(ds.shuffle), fletcher32=bool(ds.fletcher32))


def check_filters(ctx, ds, kw, what):
    f = filters_of(ds)
    ctx.event('filter-checked')
    if kw.get('compression') != f['compression']:
        raise Violation('%s (%s %s): compression %r requested, %r in force' % (what, ds.dtype, ds.shape, kw.get('compression'), f['compression']))
    if 'compression_opts' in kw and f['compression_opts'] != kw['compression_opts']:
        raise Violation('%s: level %r requested, %r in force' % (what, kw['compression_opts'], f['compression_opts']))
    # HDF5 leaves out shuffling where it can have no effect (one byte items)
    if kw.get('shuffle', False) != f['shuffle'] and not (ds.dtype.itemsize == 1 or (not kw.get('shuffle') and kw.get('compression'))):
        raise Violation('%s (%s %s): shuffle %r requested, %r in force' % (what, ds.dtype, ds.shape, kw.get('shuffle', False), f['shuffle']))
    if kw.get('fletcher32', False) != f['fletcher32']:
        raise Violation('%s: fletcher32 %r requested, %r in force' % (what, kw.get('fletcher32', False), f['fletcher32']))


WALKED = {'ndarray': 'array', 'np_matrix': 'array', 'list': 'list', 'tuple': 'list', 'set': 'list', 'str': 'text', 'bytes': 'text', 'int': 'digits',
          'astropy_quantity': 'astropy', 'astropy_angle': 'astropy', 'astropy_time': 'astropy', 'astropy_skycoord': 'astropy', 'astropy_table': 'astropy'}


def walk(ctx, h5f, kw):
    """the filters of every dataset of the file holding a numeric array, numbers of a list, a text or a pickle"""
    dec = ref_format.Decoder(h5f)

    def visit(name, node):
        if not isinstance(node, h5py.Dataset) or node.shape in (None, ()) or not node.size:
            return
        if 'type' in node.attrs:
            kind = WALKED.get(dec.resolve(node)[1])
        else:
            kind = None if h5py.check_ref_dtype(node.dtype) else 'pickle'
        if kind is None or kind in ('array', 'list', 'astropy') and node.dtype.kind not in 'biufc' + 'V' * (kind == 'astropy'):
            return
        check_filters(ctx, node, kw, '%s %s' % (kind, node.name))
        ctx.event('walked:' + kind)
        if node.name.count('/') > 3:
            ctx.event('walked-deep:' + kind)
    h5f['data'].visititems(visit)


def case(ctx):
    r = ctx.rng
    obj = robject(ctx, r)
    kw = options(r)
    for k in kw:
        ctx.event('opt:' + (kw[k] if k == 'compression' else 'level' if k == 'compression_opts' else k))
    # objects that dump refuses anyway are not part of this property
    keep = []
    for v in obj['np']:
        p = ctx.path()
        ok1, _ = hk.try_dump(v, p)
        ok2, e2 = hk.try_dump(v, p, **kw)
        if ok1 != ok2:
            raise Violation('%s %s %s: dump %s without options but %s with %s: %r' % (type(v).__name__, getattr(v, 'dtype', ''), getattr(v, 'shape', ''), 'succeeds' if ok1 else 'fails', 'succeeds' if ok2 else 'fails', kw, e2))
        if ok1:
            keep.append(v)
        else:
            ctx.event('both-refused')
    if ctx.index % 10 == 0:
        v = np.array(['2020-01-01'], 'M8[D]')
        a, b = hk.try_dump(v, ctx.path())[0], hk.try_dump(v, ctx.path(), **kw)[0]
        if a != b:
            raise Violation('datetime64: dump %s without options, %s with' % (a, b))
        ctx.event('both-refused')
    obj['np'] = keep
    p0, p1 = ctx.path(), ctx.path()
    hk.dump(ctx, obj, p0)
    before = dict(kw)
    hk.dump(ctx, obj, p1, **kw)
    if kw != before:
        raise Violation('options dictionary altered')
    ctx.event('kwargs-untouched')
    a, b = hk.load(ctx, p0, obj), hk.load(ctx, p1, obj)
    for what, x in (('without options', a), ('with %s' % kw, b)):
        d = oracle.diff(obj, x)
        if d:
            raise Violation('%s: %s' % (what, d))
    m, _ = oracle.alias_diff(obj, b)
    if m:
        raise Violation('with %s: %s' % (kw, m))
    ctx.event('compared')
    with h5py.File(p1, 'r') as f:
        walk(ctx, f, kw)
        d = f['data']
        if obj['num'].size and obj['num'].ndim:
            check_filters(ctx, d['"num"'], kw, 'array')
        check_filters(ctx, d['"nested"']['data0'], kw, 'array in list')
        check_filters(ctx, d['"nested"']['data1']['"x"'], kw, 'array in dict')
        for k in ('"text"', '"bytes"', '"str"'):
            if len(obj[k.strip('"')]) and d[k].size and d[k].ndim:
                check_filters(ctx, d[k], kw, k)
                ctx.event('string-filter-checked')
        # homogeneous numeric lists are stored arrays too
        for k in ('"nums"', '"floats"'):
            if isinstance(d[k], h5py.Dataset) and d[k].ndim:
                check_filters(ctx, d[k], kw, 'list of numbers')
        pk = d['"pickled"']['data0']
        check_filters(ctx, pk, kw, 'pickled object')
        ctx.event('pickle-filter-checked')
        if 'sparse' in obj and obj['sparse'].nnz:
            check_filters(ctx, d['"sparse"']['data'], kw, 'sparse data')
            check_filters(ctx, d['"sparse"']['indices'], kw, 'sparse indices')
    ctx.evaluated('%s %s' % (sorted(kw.items()), oracle.signature(obj, 3)), True, '%s: %s' % (kw, oracle.signature(obj, 2)[:200]))

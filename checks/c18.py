"""C18: dump leaves its input alone, load leaves the file alone, results own their data."""
import copy, hashlib, io, os, pathlib, pickle, tempfile, warnings
import h5py, numpy as np
import hickle
from checks import c05
from vmon import customs, gen, hk, oracle, state, types_for_tests as T
from vmon.core import Violation

ID = 'C18'
LEVEL = 'exploration'
NCASES = {'quick': 1020, 'thorough': 12000}
MIN_DISTINCT = {'quick': 700, 'thorough': 7000}
KINDS = ('builtin', 'array', 'view', 'readonly', 'strarray', 'objarray', 'struct', 'masked', 'sparse', 'dup-sparse', 'object', 'subclass', 'astropy', 'shared', 'custom', 'dataframe', 'bytearray')
TARGETS = ('name', 'path', 'file', 'group', 'fileobj', 'bytesio', 'subpath')
REQUIRED = (['kind:' + k for k in KINDS] + ['target:' + t for t in TARGETS]
            + ['input-unchanged', 'options-unchanged', 'kwargs-unchanged', 'file-unchanged', 'folder-unchanged', 'arrays-checked', 'writable', 'file-destroyed', 'file-overwritten', 'loaded-mutated', 'input-mutated', 'second-load', 'failed-dump', 'readonly-file'])
RULE = ('random structures of every supported kind with views, read-only, shared and non-canonical parts; the complete state of the input graph (identities, contents, array flags, attributes) is recorded before and after dump, '
        'also of failing ones; bytes and folder of the file before and after each load; memory of all arrays of input and results is checked for overlap; then file, input and one result are destroyed and the others compared again; '
        'distinct by structure, target and options')
ASSUMPTIONS = ['caches which astropy and SciPy fill when attributes are read are not state', 'immutable objects (numbers, strings, classes, functions) may be shared']
TECHNIQUE = 'runtime monitoring: state snapshots of object graphs, file bytes and folders before and after each operation, shared-memory monitor over all arrays reached'


def make(r, kind, ctx):
    if kind == 'builtin':
        return gen.rvalue(r, 3)
    if kind == 'array':
        return gen.rarray(r)
    if kind == 'view':
        a = np.array(gen.fill_numeric(r, np.dtype(r.choice(('i4', 'f8', '>i2', 'c16'))), (4, 6)))
        return [a, a[::2], a.T, a[1:3, ::-1], a.reshape(-1)[3:9]][:r.randint(1, 5)]
    if kind == 'readonly':
        a = np.array(gen.fill_numeric(r, np.dtype('f8'), (3, 4)))
        a.setflags(write=False)
        b = np.frombuffer(bytes(range(24)), dtype=r.choice(('u1', 'i4')))
        return [a, b, np.broadcast_to(np.arange(3), (2, 3)), np.array(3.5)]
    if kind == 'strarray':
        return [gen.rstrarray(r, r.choice('US')), gen.rstrarray(r, 'U')]
    if kind == 'objarray':
        return gen.robjarray(r)
    if kind == 'struct':
        return gen.rstructarray(r)
    if kind == 'masked':
        m = gen.rmasked(r)
        return [m, m[...], np.ma.array(np.arange(4), mask=[0, 1, 0, 1], fill_value=7, hard_mask=True)]
    if kind == 'sparse':
        return gen.rsparse(r)
    if kind == 'dup-sparse':
        from scipy import sparse
        n = r.randint(2, 9)
        idx = np.array([r.randrange(4) for _ in range(n)])
        m = sparse.csr_matrix((1, 4))
        m.data, m.indices, m.indptr = np.arange(1.0, n + 1), idx, np.array([0, n])
        if r.random() < .3:
            for x in (m.data, m.indices, m.indptr):
                x.setflags(write=False)
        return [m, sparse.csc_matrix((np.array([1, 0, 2]), np.array([2, 0, 1]), np.array([0, 3])), shape=(3, 1)), {'again': m}]
    if kind == 'object':
        return [T.Plain(x=[1, {'a': [r.random()]}], y=r.choice((None, 1.5, 'y', (1, [2])))), T.Slots([1, 2], 'b'), T.StateD([1]), T.Data([1], {'k': 2}), T.Reduced([3])]
    if kind == 'subclass':
        x = T.ListSub([1, 'a', [2]])
        return [x, T.DictSub({'a': [1]}), T.SetSub({1, 2}), T.TupleSub((1, [2])), T.StrSub('text'), T.Point([1], 2)]
    if kind == 'astropy':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return c05.gen_obj(ctx, r, r.randrange(7))
    if kind == 'shared':
        a, d = np.arange(5), {'k': [1]}
        return [a, d, 'x', a, {'d': d, 'a': a}, (d, 'y')]
    if kind == 'custom':
        return [T.Custom([1, r.choice((None, 'x', 2.5))]), {'c': T.Custom(np.arange(3))}]
    if kind == 'dataframe':
        import pandas as pd
        return [pd.DataFrame({'a': [1, 2, 3], 'b': ['x', None, 'z'], 'c': np.linspace(0, 1, 3)}), pd.Series([1.5, 2.5], index=['p', 'q'])]
    if kind == 'bytearray':
        return [bytearray(gen.rbytes(r, 20)), {'b': bytearray(b'xy')}]
    raise AssertionError(kind)


def folder(*dirs):
    out = {}
    for d in dirs:
        for w, _, names in os.walk(d):
            for n in names:
                p = os.path.join(w, n)
                with open(p, 'rb') as f:
                    out[p] = (hashlib.sha256(f.read()).hexdigest(), os.stat(p).st_mtime_ns, os.stat(p).st_mode)
    return out


def snap(ctx, obj):
    g, rec = state.snapshot(obj)
    ctx.event('objects', len(g.objects))
    return g, rec


def unchanged(ctx, before, obj, what):
    g, rec = state.snapshot(obj)
    if rec != before[1]:
        raise Violation('%s changed %s: %s' % (what, oracle.short(obj), state.first_difference(before[1], rec)))


def mutables(g):
    return {id(o): o for o in g.objects if not isinstance(o, (tuple, frozenset, str, bytes, int, float)) and not callable(o) and type(o).__module__ != 'enum'
            and not type(o).__module__.startswith(('astropy.units', 'astropy.utils', 'astropy.constants', 'astropy.coordinates', 'astropy.io', 'pandas', 'numpy.dtypes'))}


def disjoint(ctx, a, b, what):
    ga, gb = state.Graph(a), state.Graph(b)
    both = set(mutables(ga)) & set(mutables(gb))
    # plain library singletons do not count
    both = [o for o in (mutables(ga)[i] for i in both) if isinstance(o, (list, dict, set, np.ndarray, bytearray)) or type(o).__module__.startswith(('vmon', 'scipy'))]
    if both:
        raise Violation('%s share the object %s' % (what, oracle.short(both[0])))
    big = [x for x in gb.arrays if x.size]
    for x in ga.arrays:
        for y in big:
            if x.size and np.may_share_memory(x, y) and np.shares_memory(x, y, max_work=10 ** 5):
                raise Violation('%s share memory: %s and %s' % (what, oracle.short(x), oracle.short(y)))
            ctx.event('arrays-checked')


def native(x):
    """objects hickle restores itself: containers, arrays, masked arrays, sparse matrices"""
    stack, seen = [x], set()
    while stack:
        o = stack.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, np.ndarray):
            yield o
            if o.dtype == object:
                stack += o.reshape(-1).tolist()
        elif isinstance(o, (list, tuple, set)):
            stack += list(o)
        elif isinstance(o, dict):
            stack += list(o.values())
        elif type(o).__module__.startswith('scipy'):
            stack += [o.data, o.indices, o.indptr]


def writable(ctx, x):
    for a in native(x):
        if not a.flags.writeable:
            raise Violation('loaded array is read-only: %s' % oracle.short(a))
        if isinstance(a, np.ma.MaskedArray) and a._mask is not np.ma.nomask and a.ndim and not np.asarray(a._mask).flags.writeable:
            raise Violation('mask of loaded array is read-only: %s' % oracle.short(a))
        base = a
        while base is not None and isinstance(base, np.ndarray):
            if isinstance(base, np.memmap):
                raise Violation('loaded array is mapped from a file')
            base = base.base
        if base is not None and not isinstance(base, (bytes, bytearray, memoryview)):
            raise Violation('loaded array depends on %s' % type(base))
        if a.size:
            if type(a) is np.ndarray and a.dtype.kind in 'biufc' and a.ndim:
                old = a.reshape(-1)[0].copy()
                a.flat[0] = 1
                a.flat[0] = old
        ctx.event('writable')


def destroy(r, x, depth=0):
    """change everything that can be changed in place"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for i in (x.reshape(-1).tolist() if x.ndim else [x[()]]):
                destroy(r, i, depth + 1)
        if x.flags.writeable and x.size:
            try:
                if isinstance(x, np.ma.MaskedArray):
                    if x._mask is not np.ma.nomask and x.ndim and x._mask.dtype == bool:
                        np.logical_not(x._mask, out=x._mask)
                    x._data.view('u1')[...] ^= 0x55
                elif type(x) is np.ndarray:
                    v = np.lib.stride_tricks.as_strided(x, x.shape, x.strides)
                    if x.dtype.kind in 'iu':
                        v ^= 0x55
                    elif x.dtype.kind in 'fc':
                        v *= 0
                        v += 1.25
                    elif x.dtype.kind == 'b':
                        np.logical_not(v, out=v)
                    elif x.dtype.kind in 'SU':
                        v[...] = 'Q'
            except (TypeError, ValueError):
                pass
        return
    if depth > 60:
        return
    if isinstance(x, list):
        for i in x:
            destroy(r, i, depth + 1)
        x.append('destroyed')
    elif isinstance(x, tuple):
        for i in x:
            destroy(r, i, depth + 1)
    elif isinstance(x, dict):
        for i in x.values():
            destroy(r, i, depth + 1)
        x['destroyed'] = True
    elif isinstance(x, set):
        x.add('destroyed')
    elif isinstance(x, bytearray):
        x += b'destroyed'
    elif type(x).__module__.startswith('scipy'):
        for p in (x.data, x.indices):
            destroy(r, p, depth + 1)
    elif type(x).__module__.startswith('vmon'):
        for i in list(getattr(x, '__dict__', {}).values()):
            destroy(r, i, depth + 1)


def equal(a, b):
    """b is what a looked like: the state without identities"""
    return state.Graph(a, False).records == state.Graph(b, False).records


def case(ctx):
    r = ctx.rng
    customs.register()
    kinds = [KINDS[ctx.index % len(KINDS)]] + [r.choice(KINDS) for _ in range(r.randint(0, 2))]
    for k in kinds:
        ctx.event('kind:' + k)
    parts = [make(r, k, ctx) for k in kinds]
    obj = parts[0] if len(parts) == 1 else r.choice((lambda: parts, lambda: dict(zip('abc', parts)), lambda: tuple(parts) + ('mark',)))()
    work = os.path.join(ctx.scratch, 'work')
    cwd = os.path.join(ctx.scratch, 'cwd')
    tmp = os.path.join(ctx.scratch, 'tmp')
    for d in (work, cwd, tmp):
        os.mkdir(d)
    os.chdir(cwd)
    tempfile.tempdir = tmp
    try:
        _case(ctx, r, obj, kinds, work, (work, cwd, tmp))
    finally:
        tempfile.tempdir = None
        os.chdir('/')


def _case(ctx, r, obj, kinds, work, dirs):
    p = os.path.join(work, 'file.hkl')
    kw = r.choice(({}, {}, dict(compression='gzip', compression_opts=r.choice((1, 9))), dict(compression='lzf', shuffle=True), dict(chunks=True), dict(fletcher32=True)))
    opts = r.choice((None, {}, {'custom': False}, {'custom': True}))
    before = snap(ctx, obj)
    kwb, ob = copy.deepcopy(kw), copy.deepcopy(opts)
    sub = r.choice(('/', '/', '/', 'a/b', 'g'))
    # dump that fails half way must not leave traces in the input either
    if r.random() < .25:
        bad = [obj, T.Unpicklable()]
        ok, err = hk.try_dump(bad, os.path.join(work, 'bad.hkl'), **kw)
        if ok:
            raise Violation('object which can not be pickled was dumped')
        unchanged(ctx, before, obj, 'failing dump')
        ctx.event('failed-dump')
    ok, err = hk.try_dump(obj, p, path=sub, options=opts, **kw) if opts is not None else hk.try_dump(obj, p, path=sub, **kw)
    unchanged(ctx, before, obj, 'dump')
    ctx.event('input-unchanged')
    if kw != kwb or opts != ob:
        raise Violation('dump changed its options: %r %r -> %r %r' % (kwb, ob, kw, opts))
    ctx.event('options-unchanged' if opts is not None else 'kwargs-unchanged')
    if not ok:
        ctx.event('refused')
        return
    if r.random() < .2:
        os.chmod(p, 0o444)
        ctx.event('readonly-file')
    results = []
    for n in range(2):
        was = folder(*dirs)
        how = TARGETS[(ctx.index // len(KINDS) + n) % len(TARGETS)]
        res = load(ctx, r, p, sub, how, obj)
        ctx.event('target:' + how)
        now = folder(*dirs)
        if {k: v[0] for k, v in now.items()} != {k: v[0] for k, v in was.items()}:
            raise Violation('load by %s changed files: %s' % (how, [(k, was.get(k), now.get(k)) for k in set(was) | set(now) if was.get(k) != now.get(k)]))
        if now != was:
            raise Violation('load by %s touched files: %s' % (how, [(k, was.get(k), now.get(k)) for k in set(was) | set(now) if was.get(k) != now.get(k)]))
        ctx.event('file-unchanged')
        ctx.event('folder-unchanged')
        results.append(res)
        if n:
            ctx.event('second-load')
    unchanged(ctx, before, obj, 'load')
    a, b = results
    if 'astropy' not in kinds and 'dataframe' not in kinds:
        d = oracle.diff(obj, a) or oracle.diff(obj, b)
        if d:
            raise Violation('loads differ from the dumped object: %s' % d)
    disjoint(ctx, obj, a, 'dumped and loaded object')
    disjoint(ctx, a, b, 'results of two loads')
    writable(ctx, a)
    writable(ctx, b)
    keep = state.Graph(b, False).records
    # neither file nor input nor the other result can change what was loaded
    os.chmod(p, 0o644)
    if r.random() < .5:
        with h5py.File(p, 'r+') as f:
            def scribble(name, node):
                if isinstance(node, h5py.Dataset) and node.shape and node.dtype.kind in 'iufSb' and node.size:
                    try:
                        node[...] = np.zeros(node.shape, node.dtype)
                    except Exception:
                        pass
            f.visititems(scribble)
        ctx.event('file-overwritten')
    else:
        hk.dump(ctx, 'other content', p, mode='w')
        ctx.event('file-overwritten')
    if state.Graph(b, False).records != keep:
        raise Violation('loaded object changed with the file: %s' % oracle.short(b))
    with open(p, 'wb') as f:
        f.write(b'\0' * 100)
    os.remove(p)
    ctx.event('file-destroyed')
    destroy(r, a)
    ctx.event('loaded-mutated')
    if state.Graph(b, False).records != keep:
        raise Violation('changing one result changed the other: %s' % oracle.short(b))
    unchanged(ctx, before, obj, 'changing the loaded object')
    destroy(r, obj)
    ctx.event('input-mutated')
    if state.Graph(b, False).records != keep:
        raise Violation('changing the dumped object changed the loaded one: %s' % oracle.short(b))
    ctx.evaluated('%s|%s|%s|%s' % (kinds, oracle.signature(b), sub, sorted(kw)), True, '%s %s' % (kinds, oracle.short(b)))


def load(ctx, r, p, sub, how, about):
    if how == 'name' or how == 'subpath':
        return hk.load(ctx, p, about, path=sub)
    if how == 'path':
        return hk.load(ctx, pathlib.Path(p), about, path=sub)
    if how == 'file':
        with h5py.File(p, 'r') as f:
            return hk.load(ctx, f, about, path=sub)
    if how == 'group':
        with h5py.File(p, 'r') as f:
            return hk.load(ctx, f[sub], about)
    if how == 'fileobj':
        with open(p, 'rb') as f:
            return hk.load(ctx, f, about, path=sub)
    with open(p, 'rb') as f:
        content = f.read()
    b = io.BytesIO(content)
    res = hk.load(ctx, b, about, path=sub)
    if not b.closed and b.getvalue() != content:
        raise Violation('load changed the content of the BytesIO object')
    return res

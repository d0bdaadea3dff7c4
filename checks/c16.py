"""C16: anything that is not a complete hickle file is refused, never misread."""
import io, json, os, pickle, shutil, warnings, zipfile
import h5py, numpy as np
import hickle
from hickle.lookup import DataRecoveredWarning
from vmon import gen, hk, oracle, types_for_tests as T
from vmon.core import Violation

ID = 'C16'
LEVEL = 'fault_enumeration'
NCASES = {'quick': 320, 'thorough': 2400}
MIN_DISTINCT = {'quick': 2500, 'thorough': 15000}
DAMAGE = ('no-version', 'no-python-version', 'no-data', 'type-missing', 'type-dangling', 'table-missing', 'ref-null', 'ref-dangling', 'item-missing', 'index-missing', 'index-duplicate', 'item-surplus', 'key-surplus', 'key-index-missing', 'key-index-high', 'key-index-negative', 'key-index-duplicate', 'key-type-missing', 'index-high', 'index-negative', 'part-missing', 'part-resized', 'shape-changed', 'count-missing', 'count-high', 'count-low', 'pickle-cut', 'base-type-dangling')
JUNK = ('empty', 'text', 'random', 'pickle', 'npy', 'zip', 'json', 'plain-hdf5', 'hdf5-half-attrs', 'hdf5-foreign-attrs', 'hdf5-attrs-only', 'hdf5-attrs-foreign-data', 'directory', 'missing-file', 'v3-foreign-class')
PATHS = ('missing-path', 'inner-group', 'dataset-path', 'types-table', 'path-into-dataset', 'missing-nested')
REQUIRED = (['damage:' + d for d in DAMAGE] + ['junk:' + j for j in JUNK] + ['path:' + p for p in PATHS]
            + ['outcome:raised', 'outcome:equal', 'file-unchanged', 'undamaged-loads-after', 'target:name', 'target:handle', 'target:bytesio'])
RULE = ('random structures (containers, references, arrays of all kinds, masked, sparse, pickles) are dumped, then one structural element of the file is removed or made inconsistent with plain h5py, for every kind of damage at every node it applies to '
        '(sampled in the quick tier); files that are no hickle files and paths that hold none are offered, too; load must raise, warn that data was recovered, or return the dumped value, never anything else, and never change the file; '
        'distinct by kind of damage, kind of node and structure')
ASSUMPTIONS = ['a dataset without type information is a pickle string in this format: data whose bytes happen to form a pickle are not generated',
               'missing members of sets and items of dicts are not damage that the format can reveal']
TECHNIQUE = 'runtime monitoring with injected faults: every kind of structural damage is applied to files written by dump, an oracle holding the dumped value judges what load does'


def parts(r):
    shared = r.choice(([1, 'shared'], {'k': 'shared'}, np.arange(4), 'shared text'))
    pool = [
        lambda: gen.rvalue(r, 2), lambda: [gen.rscalar(r) for _ in range(r.randint(1, 5))] + ['x'], lambda: tuple([gen.rstr(r, 10), 1, None][:r.randint(1, 3)]) + ('e',), lambda: gen.rnumpy(r), lambda: gen.robjarray(r), lambda: gen.rstrarray(r, r.choice('US')),
        lambda: gen.rmasked(r), lambda: gen.rsparse(r), lambda: gen.rdict(r, lambda *_: gen.rscalar(r)), lambda: T.Plain(x=[1]), lambda: T.ListSub([1, 'x']), lambda: T.NewTuple((1, 'y')) if hasattr(T, 'NewTuple') else (1, 'z'), lambda: gen.rset(r), lambda: frozenset({1, 'x'}),
        lambda: {(1, 'a'): shared, 'b': [shared, 'x']}, lambda: gen.rstructarray(r), lambda: T.Point(1, 'p')]
    extra = {'sp': gen.rsparse(r)} if r.random() < .5 else {}
    return {'p%d' % i: r.choice(pool)() for i in range(r.randint(1, 4))} | extra | {'s': [shared, 'mark', shared, (shared, 1, 'x')]}


def nodes(f):
    out = []

    def walk(g, path):
        for k, v in g.items():
            if path == '' and k == 'hickle_types_table':
                continue
            p = path + '/' + k
            out.append(p)
            if isinstance(v, h5py.Group):
                walk(v, p)
    walk(f, '')
    return out


def base_types(f):
    tt = f['hickle_types_table']
    addr = lambda n: h5py.h5o.get_info(n.id).addr
    res = {}
    for n in nodes(f):
        ref = f[n].attrs.get('type')
        if isinstance(ref, h5py.Reference):
            bt = f[f[ref].attrs['base_type']].name.rsplit('/', 1)[-1]
        elif isinstance(f[n], h5py.Dataset) and h5py.check_ref_dtype(f[n].dtype):
            bt = 'reference'
        else:
            bt = 'pickle'
        res[n] = bt
    return res


def plan(f):
    """all (kind, node) pairs applicable to the file"""
    bt = base_types(f)
    todo = [('no-version', '/'), ('no-python-version', '/'), ('no-data', '/'), ('table-missing', '/')]
    for n, b in bt.items():
        node = f[n]
        parent = n.rsplit('/', 1)[0]
        pb = bt.get(parent)
        if b == 'reference':
            todo += [('ref-null', n), ('ref-dangling', n)]
            continue
        if b == 'pickle':
            if node.size:
                todo.append(('pickle-cut', n))
        else:
            todo += [('type-missing', n)]
            if isinstance(node, h5py.Group):
                todo.append(('type-dangling', n))
        if 'item_index' in node.attrs and pb in ('list', 'tuple', 'ndarray', 'np_list') or pb in ('list', 'tuple') and parent:
            todo += [('item-missing', n), ('index-missing', n), ('index-high', n), ('index-negative', n)]
            if len(f[parent]) > 1:
                todo += [('index-duplicate', n), ('item-surplus', n)]
        elif pb == 'dict' and 'key_idx' in node.attrs:
            todo += [('key-index-missing', n), ('key-index-high', n), ('key-index-negative', n), ('key-type-missing', n)]
            if len(f[parent]) > 1:
                todo += [('key-index-duplicate', n), ('key-surplus', n)]
        elif pb not in (None, 'dict', 'set', 'list', 'tuple') and parent:
            todo.append(('part-missing', n))
        if pb in ('csr_matrix', 'csc_matrix', 'bsr_matrix') and n.endswith(('/data', '/indices', '/indptr')) or pb == 'ndarray_masked' and isinstance(node, h5py.Dataset) and node.shape:
            todo.append(('part-resized', n))
        if b == 'ndarray' and isinstance(node, h5py.Group) and len(node.attrs.get('np_shape', ())):
            todo.append(('shape-changed', n))
        if isinstance(node, h5py.Group) and 'num_items' in node.attrs and b in ('list', 'tuple'):
            todo += [('count-missing', n), ('count-high', n)] + [('count-low', n)] * bool(len(node))
    for i in f['hickle_types_table']:
        if f['hickle_types_table'][i].shape is not None:
            todo.append(('base-type-dangling', '/hickle_types_table/' + i))
    return todo, bt


def damage(f, kind, n, r):
    """apply; returns False if it does not apply"""
    node = f[n]
    root = f['/']
    if kind == 'no-version':
        del root.attrs['HICKLE_VERSION']
    elif kind == 'no-python-version':
        del root.attrs['HICKLE_PYTHON_VERSION']
    elif kind == 'no-data':
        del root['data']
    elif kind == 'table-missing':
        del root['hickle_types_table']
    elif kind == 'type-missing':
        if isinstance(node, h5py.Dataset):
            # what is left would be a pickle string, see ASSUMPTIONS
            try:
                pickle.loads(node[()])
                return False
            except Exception:
                pass
        del node.attrs['type']
    elif kind == 'type-dangling':
        # an object that comes and goes: its space is taken by another one afterwards
        g = root.create_group('tmp')
        node.attrs['type'] = g.ref
        del root['tmp'], g
        f.flush()
    elif kind == 'base-type-dangling':
        node.attrs['base_type'] = h5py.h5r.Reference()
    elif kind == 'ref-null':
        node[()] = h5py.h5r.Reference()
    elif kind == 'ref-dangling':
        g = root.create_group('tmp')
        node[()] = g.ref
        del root['tmp'], g
        f.flush()
    elif kind in ('item-missing', 'part-missing'):
        parent, name = n.rsplit('/', 1)
        del f[parent][name]
    elif kind == 'index-missing':
        parent, name = n.rsplit('/', 1)
        # both the attribute and the name carry the index
        if 'item_index' in node.attrs:
            del node.attrs['item_index']
        f[parent].move(name, 'whatever')
    elif kind == 'index-duplicate':
        parent, name = n.rsplit('/', 1)
        sib = [s for s in f[parent] if s != name]
        s = f[parent][r.choice(sib)]
        if 'item_index' not in s.attrs:
            return False
        node.attrs['item_index'] = s.attrs['item_index']
    elif kind in ('index-high', 'index-negative'):
        if 'item_index' not in node.attrs:
            return False
        node.attrs['item_index'] = len(f[n.rsplit('/', 1)[0]]) + r.randint(0, 3) if kind == 'index-high' else -r.randint(1, 9)
    elif kind == 'item-surplus':
        # another item claims the same index
        parent, name = n.rsplit('/', 1)
        s = f[parent][r.choice([s for s in f[parent] if s != name])]
        if 'item_index' not in node.attrs:
            return False
        new = r.choice(('data', 'zz', 'data1')) + str(r.randint(1000, 9999))
        f.copy(s, f[parent], new)
        f[parent][new].attrs['item_index'] = node.attrs['item_index']
    elif kind == 'key-surplus':
        parent, name = n.rsplit('/', 1)
        s = f[parent][r.choice([s for s in f[parent] if s != name])]
        new = r.choice(('"a surplus %d"', '"zz surplus %d"', '"%d"')) % r.getrandbits(30)
        f.copy(s, f[parent], new)
        f[parent][new].attrs['key_idx'] = node.attrs['key_idx']
        f[parent][new].attrs['key_base_type'] = b'str'
    elif kind == 'key-index-missing':
        del node.attrs['key_idx']
    elif kind == 'key-index-high':
        node.attrs['key_idx'] = len(f[n.rsplit('/', 1)[0]]) + r.randint(0, 3)
    elif kind == 'key-index-negative':
        node.attrs['key_idx'] = -r.randint(1, 3)
    elif kind == 'key-index-duplicate':
        parent, name = n.rsplit('/', 1)
        node.attrs['key_idx'] = f[parent][r.choice([s for s in f[parent] if s != name])].attrs['key_idx']
    elif kind == 'key-type-missing':
        del node.attrs['key_base_type']
    elif kind == 'count-missing':
        del node.attrs['num_items']
    elif kind == 'count-high':
        node.attrs['num_items'] = len(node) + r.randint(1, 3)
    elif kind == 'count-low':
        node.attrs['num_items'] = r.randrange(len(node))
    elif kind == 'part-resized':
        # one of several arrays which belong together gets another length or shape
        parent, name = n.rsplit('/', 1)
        data, at = node[()], dict(node.attrs)
        how = [d for d in (data[:-1], data[1:], data[:1], np.concatenate([data, data[:1]]), np.concatenate([data[-1:], data]), data.ravel(), data[None]) if d.shape != data.shape and d.shape != ()]
        if parent.rsplit('/', 1)[-1] and 'indices' in f[parent]:
            how = [d for d in how if len(d) != len(data)]
        if 'mask' in f[parent] and (not isinstance(f[parent]['mask'], h5py.Dataset) or not f[parent]['mask'].shape):
            return False        # nothing masked: a single False stands for the mask whatever the shape of the data
        if not how or node.dtype.kind not in 'biufcV':
            return False
        del f[parent][name]
        d = f[parent].create_dataset(name, data=r.choice(how))
        for k, v in at.items():
            d.attrs[k] = v
    elif kind == 'shape-changed':
        shape = [int(x) for x in node.attrs['np_shape']]
        i = r.randrange(len(shape))
        shape[i] = max(0, shape[i] + r.choice((-1, 1)))
        if not all(shape) or not np.prod(shape):
            return False
        node.attrs['np_shape'] = shape
    elif kind == 'pickle-cut':
        parent, name = n.rsplit('/', 1)
        data, at = node[()], dict(node.attrs)
        cut = r.randrange(len(data)) if np.ndim(data) else 0
        del f[parent][name]
        d = f[parent].create_dataset(name, data=data[:cut])
        for k, v in at.items():
            d.attrs[k] = v
    return True


def judge(ctx, what, obj, fn, target, path='/'):
    raw = open(fn, 'rb').read()
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            if target == 'name':
                got = hickle.load(fn, path=path)
            elif target == 'bytesio':
                got = hickle.load(io.BytesIO(raw), path=path, filename='mem')
            else:
                with h5py.File(fn, 'r') as f:
                    got = hickle.load(f, path=path)
            ok = True
        except Exception as e:
            ok = False
    ctx.event('target:' + target)
    if open(fn, 'rb').read() != raw:
        raise Violation('%s: load changed the file' % what)
    ctx.event('file-unchanged')
    if not ok:
        ctx.event('outcome:raised')
        return
    if any(issubclass(x.category, DataRecoveredWarning) for x in w):
        ctx.event('outcome:recovered')
        return
    d = oracle.diff(obj, got)
    if d:
        raise Violation('%s: load returned something else without complaint: %s' % (what, d))
    ctx.event('outcome:equal')


def case_damage(ctx, r):
    obj = parts(r)
    src = ctx.path()
    where = r.choice(('/', '/', 'some/where'))
    hk.dump(ctx, obj, src)
    with h5py.File(src, 'r') as f:
        todo, bt = plan(f)
    byk = {}
    for k, n in todo:
        byk.setdefault(k, []).append(n)
    picks = []
    for k, ns in byk.items():
        picks += [(k, n) for n in r.sample(ns, min(len(ns), 8 if ctx.thorough else 4 if k == 'part-resized' else 2))] * (2 if k == 'part-resized' else 1)
    for k, n in picks:
        fn = ctx.path()
        shutil.copyfile(src, fn)
        with h5py.File(fn, 'r+') as f:
            if not damage(f, k, n, r):
                continue
        judge(ctx, '%s at %s (%s)' % (k, n, bt.get(n)), obj, fn, r.choice(('name', 'name', 'handle', 'bytesio')))
        ctx.event('damage:' + k)
        kind = bt.get(n, '')
        ctx.evaluated('%s %s %s %s' % (k, kind, bt.get(n.rsplit('/', 1)[0], ''), oracle.signature(obj, 2)), True, '%s at %s node of %s' % (k, kind, oracle.signature(obj, 2)[:150]))
        os.unlink(fn)
    d = oracle.diff(obj, hk.load(ctx, src, obj))
    if d:
        raise Violation('undamaged file: %s' % d)
    ctx.event('undamaged-loads-after')


def refused(ctx, what, fn, targets=('name',), **kw):
    for t in targets:
        raw = open(fn, 'rb').read() if os.path.isfile(fn) else None
        if t == 'name':
            ok, res = hk.try_load(fn, **kw)
        elif t == 'bytesio':
            ok, res = hk.try_load(io.BytesIO(raw), filename='mem', **kw)
        else:
            with h5py.File(fn, 'r') as f:
                ok, res = hk.try_load(f, **kw)
        ctx.event('target:' + t)
        if ok:
            raise Violation('%s (%s, %s): load returned %s' % (what, t, kw, oracle.short(res)))
        if raw is not None and open(fn, 'rb').read() != raw:
            raise Violation('%s: load changed the file' % what)
        ctx.event('file-unchanged')


def case_junk(ctx, r):
    fn = ctx.path(r.choice(('.hkl', '.h5', '', '.dat')))
    j = JUNK[(ctx.index // 4) % len(JUNK)]
    t = ('name', 'bytesio')
    payload = gen.rvalue(r, 2)
    if j == 'empty':
        open(fn, 'wb').close()
    elif j == 'text':
        open(fn, 'w').write('hickle ' * r.randint(1, 500))
    elif j == 'random':
        open(fn, 'wb').write((b'\x89HDF\r\n\x1a\n' if r.random() < .5 else b'') + r.randbytes(r.randint(0, 5000)))
    elif j == 'pickle':
        pickle.dump(payload, open(fn, 'wb'))
    elif j == 'npy':
        np.save(open(fn, 'wb'), np.arange(10))
    elif j == 'zip':
        with zipfile.ZipFile(fn, 'w') as z:
            z.writestr('data', 'x')
    elif j == 'json':
        json.dump({'HICKLE_VERSION': '5.0.0', 'data': [1, 2]}, open(fn, 'w'))
    elif j == 'directory':
        os.mkdir(fn)
        t = ('name',)
    elif j == 'missing-file':
        t = ('name',)
    else:
        t = ('name', 'handle', 'bytesio')
        hk.dump(ctx, payload, fn)
        with h5py.File(fn, 'r+') as f:
            ver, pyv = f.attrs['HICKLE_VERSION'], f.attrs['HICKLE_PYTHON_VERSION']
        with h5py.File(fn, 'w') as f:
            f['data'] = np.arange(5)
            f.create_group('sub')['x'] = 1
            if j == 'hdf5-half-attrs':
                f.attrs[r.choice(('HICKLE_VERSION', 'HICKLE_PYTHON_VERSION'))] = ver
            elif j == 'hdf5-foreign-attrs':
                f.attrs.update({'title': 'x', 'VERSION': '1', 'CLASS': 'GROUP'})
            elif j == 'hdf5-attrs-only':
                f.attrs.update(HICKLE_VERSION=ver, HICKLE_PYTHON_VERSION=pyv)
                del f['data']
            elif j == 'hdf5-attrs-foreign-data':
                f.attrs.update(HICKLE_VERSION=ver, HICKLE_PYTHON_VERSION=pyv)
            elif j == 'v3-foreign-class':
                f.attrs.update(CLASS='something', VERSION='3.4.0', PYTHON_VERSION='3.8')
    refused(ctx, j, fn, t)
    if j == 'missing-file' and os.path.exists(fn):
        raise Violation('load created a file')
    ctx.event('junk:' + j)
    ctx.evaluated('%s %d' % (j, ctx.index), True, j)


def case_paths(ctx, r):
    fn = ctx.path()
    obj = {'a': [1, 'x', {'deep': np.arange(3)}], 'b': {'c': (1, 'y')}, 'num': 5, 's': gen.rvalue(r, 2)}
    top = r.choice(('/', 'grp', 'a/b/c'))
    hk.dump(ctx, obj, fn, path=top)
    pre = '' if top == '/' else '/' + top
    with h5py.File(fn, 'r') as f:
        grp = f[pre or '/']
        names = [n for n in nodes(f) if n.startswith(pre + '/data')]
        inner = [n for n in names if isinstance(f[n], h5py.Group)]
        ds = [n for n in names if isinstance(f[n], h5py.Dataset)]
    for p, paths in (('missing-path', ['nope', pre + '/nope']), ('missing-nested', [pre + '/x/y/z']), ('inner-group', r.sample(inner, min(4, len(inner)))), ('dataset-path', r.sample(ds, min(4, len(ds)))),
                     ('types-table', [pre + '/hickle_types_table']), ('path-into-dataset', [d + '/x' for d in r.sample(ds, 2)])):
        for path in paths:
            refused(ctx, p, fn, r.sample(('name', 'handle', 'bytesio'), 2), path=path)
            ctx.event('path:' + p)
            ctx.evaluated('%s %s' % (p, path), True, '%s %s' % (p, path))
    if top != '/':
        for up in ('/',) + (('a', 'a/b') if top == 'a/b/c' else ()):
            refused(ctx, 'path above the object', fn, ('name', 'handle'), path=up)
    d = oracle.diff(obj, hk.load(ctx, fn, obj, path=top))
    if d:
        raise Violation(d)
    ctx.event('undamaged-loads-after')


def case(ctx):
    k = ctx.index % 4
    (case_junk if k == 3 else case_paths if ctx.index % 8 == 2 else case_damage)(ctx, ctx.rng)

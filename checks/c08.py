"""C08: every kind of file target and open mode behaves equivalently."""
import gzip, hashlib, io, os, pathlib, tempfile
import h5py
import hickle
from vmon import gen, hk, oracle
from vmon.core import Violation

ID = 'C08'
LEVEL = 'exploration'
NCASES = {'quick': 360, 'thorough': 8000}
MIN_DISTINCT = {'quick': 1500, 'thorough': 15000}
DUMPERS = ('name', 'relname', 'Path', 'h5file', 'h5group', 'fileobj', 'rawfile', 'tempfile', 'bytesio', 'minimal', 'tuple', 'list', 'dict', 'fileobj+filename', 'spooled')
LOADERS = ('name', 'relname', 'Path', 'h5file-r', 'h5file-r+', 'h5file-core', 'h5group', 'h5group-deep', 'fileobj-rb', 'fileobj-r+b', 'rawfile', 'bytesio', 'bytesio-end', 'minimal', 'tuple', 'list', 'dict', 'gzip', 'fileobj+filename')
REQUIRED = (['open-target-named', 'open-target-plain'] + ['dump:' + k for k in DUMPERS] + ['load:' + k for k in LOADERS]
            + ['mode:' + m for m in ('w', 'w+', 'wb', 'x', 'x+', 'xb', 'a', 'ab', 'r+', 'rb+', 'r', 'invalid')]
            + ['pre:absent', 'pre:hickle', 'pre:garbage', 'pre:foreign', 'pre:directory', 'refused:existing', 'refused:invalid-mode', 'refused:absent', 'refused:read',
               'truncated', 'appended', 'created', 'refused-target', 'untouched', 'open-target-kept'])
RULE = ('(a) a random object dumped through one of %d target kinds at a random, possibly non-normalised path and loaded through every one of %d kinds of target for the same file under an equivalent spelling of the path; '
        '(b) modes x previous state of the file (absent, hickle, foreign HDF5, garbage, directory) for file names, checked against the semantics of open(); (c) targets that cannot be used, content compared before and after; '
        'distinct by target kind, mode, path and object structure' % (len(DUMPERS), len(LOADERS)))
ASSUMPTIONS = ['checks run as root: files made unreadable by permissions cannot be observed', 'minimal file like objects provide read, readinto, seek, tell, write, truncate and flush as h5py requires']


class Minimal:
    """file like object that is no io.IOBase"""
    def __init__(self, b=b''):
        self._b = io.BytesIO(b)
        for n in ('read', 'readinto', 'seek', 'tell', 'write', 'truncate', 'flush', 'getvalue'):
            setattr(self, n, getattr(self._b, n))


def rpath(r):
    names = ['a', 'b', 'data', 'group one', 'ünï', 'x.y', '..', '"q"', 'hickle_types_table', '0', 'HICKLE', 'a' * 60, 'tail ', ' ', ' lead', 'UP', 'up']
    return [r.choice(names) for _ in range(r.choice((0, 0, 1, 1, 2, 3, 5)))]


def spell(r, parts):
    if not parts:
        return r.choice(('/', '', '//', '.', '/.', './'))
    s = r.choice(('', '/', './', '//', '/./'))
    for i, p in enumerate(parts):
        if i:
            s += r.choice(('/', '/', '//', '/./'))
        s += p
    return s + r.choice(('', '', '/', '//'))


def digest(p):
    if not os.path.exists(p):
        return None
    if os.path.isdir(p):
        return sorted(os.listdir(p))
    return hashlib.sha256(open(p, 'rb').read()).hexdigest()


def dump_via(ctx, r, kind, obj, parts, kw):
    """returns the path of a disk file holding what has been dumped"""
    fn = ctx.path()
    path = spell(r, parts)
    ctx.event('dump:' + kind)
    if kind == 'name':
        hk.dump(ctx, obj, fn, mode=r.choice(('w', 'x', 'a', 'w+', 'x+', 'wb')), path=path, **kw)
    elif kind == 'relname':
        os.chdir(ctx.scratch)
        hk.dump(ctx, obj, r.choice(('', './', '../%s/' % os.path.basename(ctx.scratch))) + os.path.basename(fn), path=path, **kw)
    elif kind == 'Path':
        hk.dump(ctx, obj, pathlib.Path(fn), mode=r.choice(('w', 'x', 'a', 'w+')), path=path, **kw)
    elif kind == 'h5file':
        with h5py.File(fn, 'w', libver=r.choice(('earliest', 'latest', None))) as f:
            hk.dump(ctx, obj, f, mode=r.choice(('w', 'a', 'r+')), path=path, **kw)
    elif kind == 'h5group':
        k = r.randint(0, len(parts))
        with h5py.File(fn, 'w') as f:
            g = f
            for n in parts[:k]:
                g = g.create_group(n)
            hk.dump(ctx, obj, g, path=spell(r, parts[k:]), **kw)
    elif kind in ('fileobj', 'rawfile', 'tuple', 'list', 'dict', 'fileobj+filename'):
        mode = r.choice(('w+b', 'x+b'))
        with open(fn, mode, buffering=0 if kind == 'rawfile' else -1) as f:
            t, k2 = f, {}
            if kind == 'tuple':
                t = (f, 'some name')
            elif kind == 'list':
                t = [f, 'some name']
            elif kind == 'dict':
                t = {'file': f, 'name': r.choice(('some name', b'some name'))}
            elif kind == 'fileobj+filename':
                k2 = dict(filename=r.choice(('xyz', b'xyz')))
            hk.dump(ctx, obj, t, mode=r.choice(('w', 'w+', 'wb', 'x', 'a')), path=path, **k2, **kw)
            if f.closed:
                raise Violation('file object closed by dump')
    else:
        if kind == 'tempfile':
            f = tempfile.NamedTemporaryFile(dir=ctx.scratch)
        elif kind == 'spooled':
            f = tempfile.SpooledTemporaryFile(max_size=r.choice((0, 100, 10**7)), dir=ctx.scratch)
        elif kind == 'bytesio':
            f = io.BytesIO()
        else:
            f = Minimal()
        hk.dump(ctx, obj, f, path=path, **kw)
        f.seek(0)
        with open(fn, 'wb') as out:
            out.write(f.read())
        if hasattr(f, 'close'):
            f.close()
    return fn


def load_via(ctx, r, kind, fn, parts, obj):
    path = spell(r, parts)
    ctx.event('load:' + kind)
    if kind == 'name':
        return hk.load(ctx, fn, obj, path=path)
    if kind == 'relname':
        os.chdir(ctx.scratch)
        return hk.load(ctx, os.path.basename(fn), obj, path=path)
    if kind == 'Path':
        return hk.load(ctx, pathlib.Path(fn), obj, path=path)
    if kind in ('h5file-r', 'h5file-r+', 'h5file-core'):
        with h5py.File(fn, 'r+' if kind.endswith('+') else 'r', **(dict(driver='core', backing_store=False) if kind == 'h5file-core' else {})) as f:
            return hk.load(ctx, f, obj, path=path)
    if kind in ('h5group', 'h5group-deep'):
        k = len(parts) if kind.endswith('deep') else r.randint(0, len(parts))
        with h5py.File(fn, r.choice(('r', 'r+'))) as f:
            g = f['/'.join([''] + parts[:k]) or '/']
            return hk.load(ctx, g, obj, path=spell(r, parts[k:]))
    if kind in ('fileobj-rb', 'fileobj-r+b', 'rawfile', 'tuple', 'list', 'dict', 'fileobj+filename'):
        with open(fn, 'r+b' if kind.endswith('+b') else 'rb', buffering=0 if kind == 'rawfile' else -1) as f:
            f.seek(r.choice((0, 0, 17)))
            t, k2 = f, {}
            if kind == 'tuple':
                t = (f, 'some name')
            elif kind == 'list':
                t = [f, b'some name']
            elif kind == 'dict':
                t = {'file': f, 'name': r.choice(('some name', b'some name'))}
            elif kind == 'fileobj+filename':
                k2 = dict(filename='abc')
            res = hk.load(ctx, t, obj, path=path, **k2)
            if f.closed:
                raise Violation('file object closed by load')
            return res
    data = open(fn, 'rb').read()
    if kind == 'gzip':
        gz = fn + '.gz'
        with gzip.open(gz, 'wb', compresslevel=1) as f:
            f.write(data)
        with gzip.open(gz, 'rb') as f:
            return hk.load(ctx, f, obj, path=path)
    f = Minimal(data) if kind == 'minimal' else io.BytesIO(data)
    if kind == 'bytesio-end':
        f.seek(0, 2)
    res = hk.load(ctx, f, obj, path=path)
    if f.getvalue() != data:
        raise Violation('buffer altered by load')
    return res


def dump_named(ctx, r, obj, f, place):
    """dumps to open file object, possibly along with a name for it"""
    kw = dict(mode=r.choice(('w', 'a', 'r+', 'r+b', 'wb')), path=spell(r, place))
    k = r.randrange(6)
    name = r.choice(('name', 'a/b.hkl', b'bytes', ''))
    target = (f, (f, name), [f, name], {'file': f, 'name': name}, f, f)[k]
    if k == 5:
        kw['filename'] = name
    hk.dump(ctx, obj, target, **kw)
    if f.closed:
        raise Violation('file object was closed by dump')
    ctx.event('open-target-named' if k in (1, 2, 3, 5) else 'open-target-plain')


def case_targets(ctx, r):
    obj = gen.rvalue(r, r.choice((1, 2, 3))) if r.random() < .7 else {'array': gen.rnum_array(r) if hasattr(gen, 'rnum_array') else gen.fill_numeric(r, 'f8', (5, 3)), 'l': [1, 'x', None]}
    kind = DUMPERS[(ctx.index // 3) % len(DUMPERS)]
    parts = rpath(r)
    kw = r.choice(({}, {}, dict(compression='gzip')))
    fn = dump_via(ctx, r, kind, obj, parts, kw)
    before = digest(fn)
    for lk in LOADERS:
        res = load_via(ctx, r, lk, fn, parts, obj)
        d = oracle.diff(obj, res)
        if d:
            raise Violation('dumped via %s, loaded via %s at %s: %s' % (kind, lk, parts, d))
        if lk not in ('h5file-r+', 'fileobj-r+b', 'h5group', 'h5group-deep') and digest(fn) != before:
            raise Violation('loading via %s altered the file' % lk)
        before = digest(fn)
        ctx.evaluated('%s>%s %d %s' % (kind, lk, len(parts), oracle.signature(obj, 2)), True, 'dump via %s at %r, load via %s' % (kind, '/'.join(parts), lk))
    # an already open target keeps what it holds at other paths
    other = [r.random(), 'other']
    place = ['other place', 'o']
    if parts:
        k = r.randrange(4)
        if k == 0:
            with h5py.File(fn, 'r+') as f:
                hk.dump(ctx, other, f, mode=r.choice(('w', 'a', 'r+')), path=spell(r, place))
        elif k == 1:
            with open(fn, 'r+b', buffering=r.choice((-1, 0, 4096))) as f:
                f.seek(r.choice((0, 0, 5, 10 ** 6)))
                dump_named(ctx, r, other, f, place)
        elif k == 2:
            b = io.BytesIO(open(fn, 'rb').read())
            b.seek(r.choice((0, 0, 5, 10 ** 6)))
            dump_named(ctx, r, other, b, place)
            open(fn, 'wb').write(b.getvalue())
        else:
            hk.dump(ctx, other, fn, mode=r.choice(('a', 'r+')), path=spell(r, place))
        for what, pth, o in (('old', parts, obj), ('new', place, other)):
            d = oracle.diff(o, hk.load(ctx, fn, o, path=spell(r, pth)))
            if d:
                raise Violation('%s content after dumping to the open file (%d): %s' % (what, k, d))
        ctx.event('open-target-kept')


VALID = {'w': 'w', 'w+': 'w', 'wb': 'w', 'w+b': 'w', 'wb+': 'w', 'x': 'x', 'x+': 'x', 'xb': 'x', 'x+b': 'x', 'w-': 'x', 'a': 'a', 'ab': 'a', 'r+': 'u', 'rb+': 'u', 'r+b': 'u', 'r': 'r', 'rb': 'r'}
INVALID = ('q', '', 'rw', 'wx', 'xa', 'W', 'w++', '+', 'b', 'U', 'w ', 'read')
NAMED = ('w', 'w+', 'wb', 'x', 'x+', 'xb', 'a', 'ab', 'r+', 'rb+', 'r')


def case_modes(ctx, r):
    pre = r.choice(('absent', 'hickle', 'hickle', 'hickle', 'foreign', 'garbage', 'directory'))
    mode = r.choice(list(VALID) + list(INVALID[:4]))if r.random() < .85 else r.choice(INVALID)
    sem = VALID.get(mode, 'invalid')
    ctx.event('pre:' + pre)
    if mode in NAMED:
        ctx.event('mode:' + mode)
    if sem == 'invalid':
        ctx.event('mode:invalid')
    fn = ctx.path(r.choice(('.hkl', '.h5', '', '.ünï code')))
    old = gen.rvalue(r, 2)
    new = gen.rvalue(r, 2)
    if pre == 'hickle':
        hk.dump(ctx, old, fn, path='old')
    elif pre == 'foreign':
        with h5py.File(fn, 'w') as f:
            f['d'] = [1, 2, 3]
    elif pre == 'garbage':
        open(fn, 'wb').write(bytes(r.getrandbits(8) for _ in range(r.choice((1, 100, 5000)))))
    elif pre == 'directory':
        os.mkdir(fn)
        open(os.path.join(fn, 'file'), 'w').write('x')
    before = digest(fn)
    newpath = r.choice(('new', '/new', 'n/e/w'))
    ok, err = hk.try_dump(new, r.choice((str, pathlib.Path))(fn), mode=mode, path=newpath)
    ctx.evaluated('%s %s %s' % (pre, mode, oracle.signature(new, 1)), True, 'mode %r on %s file' % (mode, pre))
    # what opening a file in that mode means
    if sem in ('invalid', 'r') or pre == 'directory':
        want = False
    elif sem == 'w':
        want = True
    elif sem == 'x':
        want = pre == 'absent'
    elif sem == 'a':
        want = pre != 'garbage'
    else:
        want = pre in ('hickle', 'foreign')
    if ok != want:
        raise Violation('dump with mode %r to %s file %s (%r)' % (mode, pre, 'succeeded' if ok else 'failed', err))
    if not ok:
        if digest(fn) != before:
            raise Violation('refused dump with mode %r changed the %s file' % (mode, pre))
        ctx.event('untouched')
        ctx.event('refused:' + ('invalid-mode' if sem == 'invalid' else 'read' if sem == 'r' else 'absent' if pre == 'absent' else 'existing'))
        if pre == 'hickle':
            d = oracle.diff(old, hk.load(ctx, fn, old, path='old'))
            if d:
                raise Violation('after refused dump: %s' % d)
        return
    d = oracle.diff(new, hk.load(ctx, fn, new, path=newpath))
    if d:
        raise Violation('mode %r: %s' % (mode, d))
    with h5py.File(fn, 'r') as f:
        there = set(f)
    rest = there - {newpath.strip('/').split('/')[0]}
    if sem == 'w' or pre == 'absent':
        ctx.event('truncated' if pre != 'absent' else 'created')
        if rest:
            raise Violation('mode %r kept %s' % (mode, rest))
    else:
        ctx.event('appended')
        if pre == 'hickle':
            d = oracle.diff(old, hk.load(ctx, fn, old, path='old'))
            if d:
                raise Violation('mode %r: old content %s' % (mode, d))
        elif rest != {'d'}:
            raise Violation('mode %r: foreign content %s' % (mode, rest))


def case_refused(ctx, r):
    fn = ctx.path()
    old = gen.rvalue(r, 2)
    hk.dump(ctx, old, fn, path=r.choice(('/', 'old')))
    oldpath = 'old' if 'old' in list(h5py.File(fn, 'r')) else '/'
    new = [1, 'new']
    other = ctx.path()
    kinds = ('closed-h5', 'closed-group', 'closed-file', 'closed-bytesio', 'h5-r', 'group-r', 'rb', 'rb-raw', 'text', 'text-r', 'ab', 'a+b', 'wb', 'object', 'int', 'none', 'pipe', 'bytesio-ro', 'nonstr-filename', 'dataset', 'tuple-str', 'absent-load', 'dir-load', 'garbage-load', 'empty-load', 'bytes-name', 'mode-mismatch')
    kind = kinds[(ctx.index // 3) % len(kinds)]
    before = digest(fn)
    res = []
    keep = []

    def d(t, **kw):
        res.append(('dump',) + hk.try_dump(new, t, path='new', **kw))

    def l(t, **kw):
        res.append(('load',) + hk.try_load(t, path=kw.pop('path', oldpath), **kw))
    if kind == 'closed-h5':
        f = h5py.File(fn, r.choice(('r', 'r+')))
        f.close()
        d(f); l(f)
    elif kind == 'closed-group':
        f = h5py.File(fn, r.choice(('r', 'r+')))
        g = f[oldpath]
        f.close()
        d(g); l(g)
    elif kind == 'closed-file':
        f = open(fn, 'r+b')
        f.close()
        d(f); l(f); d((f, 'n')); l({'file': f, 'name': 'n'})
    elif kind == 'closed-bytesio':
        f = io.BytesIO(open(fn, 'rb').read())
        f.close()
        d(f); l(f)
    elif kind in ('h5-r', 'group-r'):
        with h5py.File(fn, 'r') as f:
            t = f if kind == 'h5-r' else f[oldpath]
            for m in ('w', 'x', 'a', 'r+', 'w+', 'r'):
                d(t, mode=m)
            x = hk.load(ctx, f, old, path=oldpath)
            if oracle.diff(old, x):
                raise Violation('handle unusable after refused dump')
    elif kind in ('rb', 'rb-raw'):
        with open(fn, 'rb', buffering=0 if kind == 'rb-raw' else -1) as f:
            for m in ('w', 'x', 'a', 'r+', 'w+', 'r'):
                d(f, mode=m)
            x = hk.load(ctx, f, old, path=oldpath)
            if oracle.diff(old, x):
                raise Violation('file object unusable after refused dump')
    elif kind in ('text', 'text-r', 'ab', 'a+b'):
        with open(fn, {'text': 'r+', 'text-r': 'r', 'ab': 'ab', 'a+b': 'a+b'}[kind], **({} if 'b' in kind else dict(encoding='latin1'))) as f:
            for m in ('w', 'a', 'r+'):
                d(f, mode=m)
            if kind in ('text', 'text-r', 'ab'):
                l(f)
    elif kind == 'wb':
        with open(other, 'wb') as f:
            d(f)
    elif kind in ('object', 'int', 'none', 'bytes-name', 'dataset'):
        t = {'object': object(), 'int': 987654, 'none': None, 'bytes-name': b'no such thing/x.hkl', 'dataset': 3.5}[kind]
        d(t); l(t)
    elif kind == 'pipe':
        a, b = os.pipe()
        with open(a, 'rb') as ra, open(b, 'wb') as wb:
            l(ra); d(wb); d(ra)
    elif kind == 'bytesio-ro':
        class RO(io.BytesIO):
            def write(self, b):
                raise io.UnsupportedOperation('read only')
        f = RO(open(fn, 'rb').read())
        d(f, mode='r+'); d(f, mode='w')
    elif kind == 'nonstr-filename':
        with open(fn, 'r+b') as f:
            d(f, filename=12, mode='r+'); l(f, filename=3.5); d((f, 7), filename=object(), mode='r+')
    elif kind == 'tuple-str':
        d((other, 'x')); l((fn,)); l([]); d(())
    elif kind == 'absent-load':
        l(other); l(pathlib.Path(other))
        l(fn, path='not there'); l(fn, path=oldpath + '/nope/nope')
    elif kind == 'dir-load':
        l(ctx.scratch)
    elif kind == 'garbage-load':
        l(io.BytesIO(b'garbage' * 1000)); l(io.BytesIO(b''))
        open(other, 'wb').write(b'x' * 100)
        l(other)
        os.remove(other)
    elif kind == 'empty-load':
        open(other, 'wb').close()
        l(other)
        os.remove(other)
    elif kind == 'mode-mismatch':
        with open(fn, 'r+b') as f:
            for m in ('q', '+', 'U'):
                d(f, mode=m)
    for what, ok, e in res:
        if ok:
            raise Violation('%s with unusable target (%s) succeeded: %s' % (what, kind, oracle.short(e)))
        ctx.event('refused-target')
        ctx.evaluated('refused %s %s %s' % (kind, what, type(e).__name__), True, '%s refused for %s: %s' % (what, kind, type(e).__name__))
    if digest(fn) != before:
        raise Violation('refused target (%s) was changed' % kind)
    if kind != 'wb' and os.path.exists(other):
        raise Violation('refused target (%s) left a new file' % kind)
    ctx.event('untouched')
    dd = oracle.diff(old, hk.load(ctx, fn, old, path=oldpath))
    if dd:
        raise Violation('after refused %s: %s' % (kind, dd))


def case(ctx):
    (case_targets, case_modes, case_refused)[ctx.index % 3](ctx, ctx.rng)

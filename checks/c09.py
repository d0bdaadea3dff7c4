"""C09: dumping at one path never affects anything else stored in the file."""
import io, os, warnings
import h5py, numpy as np
import hickle
from vmon import gen, hk, old_writers, oracle, types_for_tests as T
from vmon.core import Violation

ID = 'C09'
LEVEL = 'exploration'
NCASES = {'quick': 160, 'thorough': 4000}
MIN_DISTINCT = {'quick': 130, 'thorough': 2500}
REQUIRED = ['op:dump', 'op:load', 'op:refused', 'op:foreign', 'op:failing', 'op:dump-beside', 'via:name', 'via:handle', 'via:group', 'via:fileobj', 'via:buffer', 'loaded-all', 'foreign-compared',
            'refused-dataset', 'refused-hickle', 'refused-foreign-group', 'refused-softlink', 'refused-root', 'into-empty-group', 'soft-link', 'hard-link', 'committed-type', 'same-object-twice', 'legacy-root', 'legacy-path', 'load-between', 'deleted-other']
RULE = ('random histories (4-18 operations) on one file: dumps at fresh nested paths through file name, HDF5 handle, group, file object and buffer, dumps at occupied paths (hickle root, dataset, foreign group, soft link), failing '
        'dumps, creation and deletion of foreign content (datasets, groups, attributes, links, named types), objects written by hickle 4.0 in the same file, loads in between; model = map of path to dumped object plus a snapshot of the foreign content; everything is loaded and '
        'compared after every few operations and, in shuffled order, at the end; distinct by operation sequence')
ASSUMPTIONS = ['paths inside the nodes a dumped object itself occupies are not used as dump targets']

NAMES = ['a', 'b', 'c', 'deep', 'x y', 'ü', 'data2', '0', 'list', 'object', 'pickle', "'q'", '"a"', 'dict', 'HICKLE_VERSION']
PLAIN = ('u1', 'i2', 'f8', 'c16', 'S4')


def islink(f, p):
    return p != '/' and isinstance(f.get(p, getlink=True), h5py.SoftLink)


def snapshot(f, skip):
    """foreign content of the file: every object not below a hickle node"""
    out = {}

    def attrs(o):
        res = {}
        for k, v in o.attrs.items():
            res[k] = (str(getattr(v, 'dtype', type(v))), repr(v)[:300])
        return res

    def walk(g, prefix):
        for k in g:
            p = prefix + '/' + k
            if p in skip:
                continue
            link = g.get(k, getlink=True)
            if isinstance(link, h5py.SoftLink):
                out[p] = ('soft', link.path)
                continue
            o = g[k]
            if isinstance(o, h5py.Dataset):
                out[p] = ('ds', str(o.dtype), o.shape, b'' if o.shape is None else repr(o[()]) if o.dtype.hasobject else o[()].tobytes(), attrs(o))
            elif isinstance(o, h5py.Datatype):
                out[p] = ('type', str(o.dtype))
            else:
                out[p] = ('group', attrs(o))
                walk(o, p)
    out['/'] = attrs(f)
    walk(f, '')
    return out


class World:
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng
        self.fn = ctx.path()
        self.objs = {}              # '/a/b' -> object
        self.mess = set()           # paths at which a failing dump may have left something
        self.foreign = set()        # foreign groups, usable as parents
        self.fdata = set()          # foreign datasets
        self.ops = []
        self.legacy = set()
        with h5py.File(self.fn, 'w', libver=self.r.choice(('earliest', 'latest', None))):
            pass

    def skip(self):
        s = set()
        for p in self.objs:
            s |= {self.join(p, 'data'), self.join(p, 'hickle_types_table')}
        for p in self.mess:
            s.add(p)
        return s

    @staticmethod
    def join(p, n):
        return ('' if p == '/' else p) + '/' + n

    def occupied(self):
        return set(self.objs) | self.mess | self.foreign | self.fdata

    def fresh(self):
        """a new path: below root, a foreign group, or another dumped object's root group"""
        for _ in range(100):
            base = self.r.choice(['/'] * 3 + sorted(self.foreign) + [p for p in sorted(self.objs)])
            p = base
            for _ in range(self.r.choice((1, 1, 2, 3))):
                p = self.join(p, self.r.choice(NAMES) + self.r.choice(('', '', '1', '2', '3')))
            occ = self.occupied()
            bad = p in occ or any(o.startswith(p + '/') for o in occ) or any(p.startswith(o + '/') for o in self.mess | self.fdata)
            if not bad:
                return p, base
        return None, None

    def target(self, path):
        """calls to make for dumping/loading at an absolute path"""
        return self.r.choice(('name', 'name', 'handle', 'group', 'fileobj', 'buffer'))

    def do_dump(self, obj, path, via, expect=True, **kw):
        """returns exception or None"""
        r = self.r
        self.ctx.event('via:' + via)
        warn = warnings.catch_warnings()
        with warn:
            warnings.simplefilter('ignore')
            try:
                if via == 'name':
                    hickle.dump(obj, self.fn, mode=r.choice(('a', 'r+')), path=path, **kw)
                elif via == 'handle':
                    with h5py.File(self.fn, 'r+') as f:
                        hickle.dump(obj, f, mode=r.choice(('w', 'a', 'r+')), path=path, **kw)
                elif via == 'group':
                    parts = path.strip('/').split('/') if path != '/' else []
                    with h5py.File(self.fn, 'r+') as f:
                        k = r.randint(0, max(0, len(parts) - 1))
                        while k and not isinstance(f.get('/' + '/'.join(parts[:k])), h5py.Group):
                            k -= 1
                        hickle.dump(obj, f['/' + '/'.join(parts[:k])], path='/'.join(parts[k:]), **kw)
                elif via == 'fileobj':
                    with open(self.fn, 'r+b') as f:
                        hickle.dump(obj, f, mode=r.choice(('a', 'r+', 'w')), path=path, **kw)
                else:
                    b = io.BytesIO(open(self.fn, 'rb').read())
                    try:
                        hickle.dump(obj, b, mode=r.choice(('a', 'r+', 'w')), path=path, **kw)
                    finally:
                        with open(self.fn, 'wb') as f:
                            f.write(b.getvalue())
            except Exception as e:
                return e
        return None

    def load_one(self, path, f=None):
        via = self.r.choice(('name', 'handle', 'group', 'fileobj'))
        obj = self.objs[path]
        if path in self.legacy:
            self.ctx.event('legacy-loaded')
        if f is not None:
            res = hk.load(self.ctx, f, obj, path=path)
        elif via == 'name':
            res = hk.load(self.ctx, self.fn, obj, path=path)
        elif via == 'handle':
            with h5py.File(self.fn, self.r.choice(('r', 'r+'))) as f:
                res = hk.load(self.ctx, f, obj, path=path)
        elif via == 'group':
            with h5py.File(self.fn, 'r') as f:
                res = hk.load(self.ctx, f[path], obj)
        else:
            with open(self.fn, 'rb') as f:
                res = hk.load(self.ctx, f, obj, path=path)
        d = oracle.diff(obj, res)
        if d:
            raise Violation('object at %r after %s: %s' % (path, self.ops, d))
        m, _ = oracle.alias_diff(obj, res)
        if m:
            raise Violation('object at %r after %s: %s' % (path, self.ops, m))

    def load_all(self):
        ps = sorted(self.objs)
        self.r.shuffle(ps)
        if self.r.random() < .5:
            for p in ps:
                self.load_one(p)
        else:
            with h5py.File(self.fn, 'r') as f:
                for p in ps:
                    self.load_one(p, f)
        self.ctx.event('loaded-all')

    def snap(self):
        with h5py.File(self.fn, 'r') as f:
            return snapshot(f, self.skip())

    def compare_foreign(self, before, allowed_new=()):
        after = self.snap()
        for k, v in before.items():
            if k not in after:
                raise Violation('foreign content %r vanished after %s' % (k, self.ops))
            if after[k] != v:
                raise Violation('foreign content %r changed after %s: %s -> %s' % (k, self.ops, str(v)[:200], str(after[k])[:200]))
        for k in after:
            if k not in before and not any(a == k or a.startswith(k + '/') for a in allowed_new):
                raise Violation('%r appeared in the file after %s' % (k, self.ops))
        self.ctx.event('foreign-compared')


def robj(w):
    r = w.r
    k = r.randrange(8)
    if k == 0:
        return gen.fill_numeric(r, r.choice(PLAIN[:4]), (r.randint(1, 30),))
    if k == 1:
        s = [1, [2, 'x']]
        return {'a': s, 'b': (s, s), 'c': s[1]}
    if k == 2:
        return [T.Data(1, 'b'), frozenset({1}), T.Color.RED, T.ListSub([1, 'x'])]
    if k == 3:
        return {b'a': 1, 'a': 2, 1: 3, (1, 'a'): gen.fill_numeric(r, 'f8', (2, 2))}
    return gen.rvalue(r, r.choice((1, 2, 3)))


def make_foreign(w):
    r = w.r
    p, base = w.fresh()
    if p is None:
        return
    with h5py.File(w.fn, 'r+') as f:
        k = r.randrange(6)
        if k == 0:
            g = f.create_group(p)
            w.foreign.add(p)
            g.attrs['note'] = r.choice(('text', 5, np.arange(3)))
            g['inner'] = np.arange(4)
            w.fdata.add(p + '/inner')
        elif k == 1:
            f.create_dataset(p, data=gen.fill_numeric(r, r.choice(PLAIN[:4]), (r.randint(1, 20),)), compression=r.choice((None, 'gzip')))
            f[p].attrs['type'] = 'mine'
            w.fdata.add(p)
        elif k == 2:
            f[p] = h5py.SoftLink(r.choice(sorted(w.objs) + sorted(w.fdata) + ['/dangling']))
            w.fdata.add(p)
            w.ctx.event('soft-link')
        elif k == 3 and w.fdata:
            tgt = r.choice(sorted(w.fdata))
            if isinstance(f.get(tgt, getlink=True), h5py.HardLink):
                f[p] = f[tgt]
                w.fdata.add(p)
                w.ctx.event('hard-link')
        elif k == 4:
            f[p] = np.dtype([('a', 'i4'), ('b', 'f8')])
            w.fdata.add(p)
            w.ctx.event('committed-type')
        else:
            f.create_group(p)
            w.foreign.add(p)
        # parents made on the way are groups now
        q = p
        while '/' in q[1:]:
            q = q.rsplit('/', 1)[0]
            if q not in w.objs and q not in w.fdata:
                w.foreign.add(q)
    w.ops.append('foreign%d' % k)


def case(ctx):
    r = ctx.rng
    w = World(ctx)
    if r.random() < .3:
        o = robj(w)
        e = w.do_dump(o, '/', w.target('/'))
        if e is not None:
            raise Violation('dump into empty file at / raised %r' % e)
        w.objs['/'] = o
        w.ops.append('dump /')
    elif r.random() < .25:
        # objects written by hickle 4.0 stay what they are
        for p in ['/'][:r.randrange(2)] + ['/old', '/very/old'][:r.randint(0, 2)]:
            o = r.choice(([1, 'x', {'k': 2.5, 'l': None}], {'a': gen.fill_numeric(r, 'f8', (4,)), 'b': ['t', b'u']}, (1.5, ['x', 'y'], {'n': None}), 'text', {'d': {'e': [1, 2, 'f']}}))
            with h5py.File(w.fn, 'r+') as f:
                old_writers.v4_dump(o, f, p)
            w.objs[p] = o
            w.legacy.add(p)
            w.ops.append('v4 ' + p)
            ctx.event('legacy-root' if p == '/' else 'legacy-path')
            if p == '/very/old':
                w.foreign.add('/very')
    shared = robj(w)
    n = r.randint(4, 18)
    for step in range(n):
        before = w.snap()
        k = r.choice(('dump', 'dump', 'dump', 'dump', 'refused', 'refused', 'foreign', 'foreign', 'failing', 'load', 'into-empty', 'delete'))
        if k == 'dump':
            p, base = w.fresh()
            if p is None:
                continue
            o = shared if r.random() < .3 else robj(w)
            if o is shared and any(v is shared for v in w.objs.values()):
                ctx.event('same-object-twice')
            via = w.target(p)
            w.ops.append('dump %s %s' % (p, via))
            if base in w.objs:
                ctx.event('op:dump-beside')
            e = w.do_dump(o, p, via, **r.choice(({}, {}, dict(compression='gzip'))))
            if e is not None:
                raise Violation('dump at fresh path %r via %s raised %r after %s' % (p, via, e, w.ops))
            w.objs[p] = o
            q = p
            while '/' in q[1:]:
                q = q.rsplit('/', 1)[0]
                if q not in w.objs:
                    w.foreign.add(q)
            ctx.event('op:dump')
            w.compare_foreign(before, [p])
        elif k == 'refused':
            with h5py.File(w.fn, 'r') as f:
                full = [p for p in sorted(set(w.objs) | w.foreign | w.fdata | {'/'}) if p in f and (not isinstance(f.get(p), h5py.Group) or len(f[p]))]
                kinds = {p: 'softlink' if islink(f, p) else 'hickle' if p in w.objs else 'root' if p == '/' else 'foreign-group' if isinstance(f.get(p), h5py.Group) else 'dataset' for p in full}
            if not full:
                continue
            p = r.choice(full)
            via = w.target(p)
            w.ops.append('refused %s %s' % (p, via))
            e = w.do_dump(robj(w), p, via)
            if e is None:
                raise Violation('dump to occupied path %r (%s) via %s was not refused' % (p, kinds[p], via))
            ctx.event('op:refused')
            ctx.event('refused-' + kinds[p])
            w.compare_foreign(before)
            for q in sorted(w.objs):
                w.load_one(q)
        elif k == 'foreign':
            make_foreign(w)
            ctx.event('op:foreign')
        elif k == 'failing':
            p, base = w.fresh()
            if p is None:
                continue
            via = w.target(p)
            if via == 'group':
                via = 'handle'
            w.ops.append('failing %s %s' % (p, via))
            bad = [robj(w), {'k': T.Unpicklable()}, 'tail']
            e = w.do_dump(bad, p, via)
            if e is None:
                raise Violation('unpicklable object was dumped')
            w.mess.add(p)
            q = p
            while '/' in q[1:]:
                q = q.rsplit('/', 1)[0]
                if q not in w.objs:
                    w.foreign.add(q)
            ctx.event('op:failing')
            w.compare_foreign(before, [p])
        elif k == 'load' and w.objs:
            w.load_one(r.choice(sorted(w.objs)))
            ctx.event('load-between')
            ctx.event('op:load')
        elif k == 'into-empty':
            p, base = w.fresh()
            if p is None:
                continue
            with h5py.File(w.fn, 'r+') as f:
                g = f.create_group(p)
                g.attrs['mine'] = 'kept'
            o = robj(w)
            w.ops.append('into-empty ' + p)
            e = w.do_dump(o, p, w.target(p))
            if e is not None:
                raise Violation('dump into existing empty group %r raised %r' % (p, e))
            w.objs[p] = o
            with h5py.File(w.fn, 'r') as f:
                if f[p].attrs.get('mine') != 'kept':
                    raise Violation('attribute of the group dumped into changed')
            q = p
            while '/' in q[1:]:
                q = q.rsplit('/', 1)[0]
                if q not in w.objs:
                    w.foreign.add(q)
            ctx.event('into-empty-group')
        elif k == 'delete' and len(w.objs) > 1:
            # the user removes one dumped object with HDF5 means: all others stay loadable, and the place can be used again
            ps = [p for p in sorted(w.objs) if p != '/' and not any(o != p and o.startswith(p + '/') for o in w.occupied())]
            if not ps:
                continue
            p = r.choice(ps)
            with h5py.File(w.fn, 'r+') as f:
                for d in [q for q in w.fdata if islink(f, q)]:
                    del f[d]
                    w.fdata.discard(d)
                del f[p]
            del w.objs[p]
            w.legacy.discard(p)
            w.ops.append('delete ' + p)
            o = robj(w)
            if r.random() < .5:
                e = w.do_dump(o, p, w.target(p))
                if e is not None:
                    raise Violation('dump at freed path %r raised %r' % (p, e))
                w.objs[p] = o
            ctx.event('deleted-other')
        if r.random() < .15:
            w.load_all()
    before = w.snap()
    w.load_all()
    w.compare_foreign(before)
    ctx.evaluated(' '.join(o.split()[0] for o in w.ops) + '%d' % len(w.objs) + '/'.join(sorted(w.objs)), len(w.objs) > 1, '; '.join(w.ops))

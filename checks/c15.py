"""C15: data of classes or loaders missing at load time is recovered."""
import importlib, os, pickle, subprocess, sys, warnings
import h5py, numpy as np
import hickle
from hickle.lookup import DataRecoveredWarning, RecoveredDataset, RecoveredGroup
from vmon import gen, gone_src, hk, oracle
from vmon.core import VERIF, REPO, HarnessError, Violation

ID = 'C15'
LEVEL = 'fault_enumeration'
NCASES = {'quick': 800, 'thorough': 12000}
MIN_DISTINCT = {'quick': 500, 'thorough': 6000}
HOW = ('module-gone', 'class-gone', 'import-error', 'loader-gone', 'other-process', 'other-process-class-here')
REQUIRED = ['lost:' + h for h in HOW] + ['recovered:' + c for c in list(gone_src.BASE) + list(gone_src.OWN) + ['P']] + [
    'warned', 'shared', 'distinct', 'nested-in-lost', 'lost-inside-lost', 'attrs', 'rest-intact', 'top-level', 'restored', 'handle:r', 'handle:r+', 'handle:name', 'empty', 'nothing-lost-no-warning', 'file-unchanged']
RULE = ('structures mixing native values with instances of classes from a module written for the case (subclasses of builtins, pickled instances, classes with group and dataset loaders, nested in one another and shared) are dumped; '
        'then the module, the class, its importability or the loader is taken away, or the file comes from another process that alone knew them; every recovered node is compared with the data it was made of, everything else with the dumped value; '
        'distinct by structure and kind of loss')
TECHNIQUE = 'runtime monitoring with injected environment faults: classes and loaders are removed between dump and load, an oracle holding the specification of the dumped structure judges every recovered node, its sharing and the warnings'


def attrs(r):
    return {n: r.choice((1, 2.5, 'text', 'ü')) for n in r.sample(('note', 'unit', 'a b', 'ö', 'q'), r.randint(0, 3))}


def make_spec(r, depth, uids, allow_own=True):
    x = r.random()
    if uids and x < .18:
        return ('ref', r.choice(uids))
    if depth <= 0 or x < .28:
        return ('val', r.choice((lambda: gen.rsmallint(r), lambda: gen.rstr(r, 20), lambda: gen.rbytes(r, 20), lambda: None, lambda: r.random(), lambda: np.arange(r.randint(1, 5)), lambda: [1, 'x', [2]], lambda: {'k': (1, 'y')}))())
    if x < .36:
        return ('list', [make_spec(r, depth - 1, uids) for _ in range(r.randint(1, 4))] + [('val', 'end')])
    if x < .42:
        return ('tuple', [make_spec(r, depth - 1, uids) for _ in range(r.randint(1, 3))] + [('val', 'end')])
    if x < .5:
        return ('dict', [('k%d' % i, make_spec(r, depth - 1, uids)) for i in range(r.randint(1, 3))])
    return make_lost(r, depth, uids)


def make_lost(r, depth, uids, cls=None):
    cls = cls or r.choice(('L', 'Tu', 'S', 'D', 'St', 'B', 'I', 'F', 'C', 'OD', 'NT', 'P', 'P') + gone_src.OWN + gone_src.OWN)
    if cls in ('L', 'Tu'):
        n = r.choice((0, 1, 2, 3))
        if r.random() < .3:
            c = [('val', gen.rsmallint(r)) for _ in range(n)]
        else:
            c = [make_spec(r, depth - 1, uids) for _ in range(n)] + ([('val', 'end')] if n else [])
    elif cls == 'NT':
        c = [make_spec(r, depth - 1, uids), ('val', 'end')]
    elif cls == 'S':
        c = [('val', v) for v in {gen.rsmallint(r), 'x', 2.5, b'y'}] if r.random() < .6 else [('val', v) for v in {gen.rsmallint(r), gen.rsmallint(r)}]
    elif cls in ('D', 'OD'):
        c = [(k, make_spec(r, depth - 1, uids)) for k in r.sample(('a', 'b', 'c/d', 5, (1, 'x'), None, 2.5), r.randint(0, 4))]
    elif cls == 'St':
        c = gen.rstr(r, 30)
    elif cls == 'B':
        c = gen.rbytes(r, 30)
    elif cls == 'I':
        c = gen.rint(r)
    elif cls == 'F':
        c = r.choice((1.5, -0.0, 1e300))
    elif cls == 'C':
        c = complex(r.random(), 2)
    elif cls == 'P':
        c = [r.randrange(100), 'state']
    elif cls in ('G', 'GL', 'GI', 'GO', 'Gsub'):
        names = r.sample(('x', 'y', 'data', 'some name', 'ünï'), r.randint(0, 4))
        c = dict(attrs=attrs(r), subs=[(n, make_spec(r, depth - 1, uids), {'s_' + a: v for a, v in attrs(r).items()}) for n in names])
    elif cls == 'Vs':
        c = dict(attrs=attrs(r), data=gen.rstr(r, 20).replace('\0', '').encode('utf8', 'ignore').decode())
    elif cls == 'E':
        c = dict(attrs=attrs(r), data=None)
    else:
        k = r.random()
        if k < .6:
            shape = r.choice(((), (0,), (1,), (7,), (2, 3), (2, 0), (3, 1, 2)))
            data = np.array(gen.fill_numeric(r, np.dtype(r.choice(('i1', 'u8', '<i4', '>i2', '>u4', 'f2', '>f4', 'f8', '>f8', 'c8', '>c16', 'b1'))), shape)).reshape(shape)
            if r.random() < .3:
                data = np.asfortranarray(data)
        elif k < .75:
            data = np.array([(1, 2.5, b'ab'), (3, -0.0, b'')], dtype=[('n', '>i4'), ('x', 'f8', ), ('s', 'S3')])[:r.randint(0, 2)]
        elif k < .9:
            data = np.array([b'a', b'', b'xyz\xff'][:r.randint(1, 3)], dtype='S5')
        else:
            data = np.int16(7)
        c = dict(attrs=attrs(r), data=data)
    uid = len(uids)
    uids.append(uid)
    return ('lost', uid, cls, c)


class Checker:
    def __init__(self, ctx, pkg, classlost, mod):
        self.ctx, self.pkg, self.classlost, self.mod = ctx, pkg, classlost, mod
        self.found = {}       # uid -> object
        self.nlost = 0
        self.pickles = []
        self.specs = {}

    def lost(self, cls):
        return self.classlost or cls in gone_src.OWN

    def attrs(self, want, got, path):
        for k, v in want.items():
            if k not in got or got[k] != v:
                raise Violation('%s: attribute %r of the lost object is %r instead of %r' % (path, k, got.get(k), v))
            self.ctx.event('attrs')

    def kind(self, cls, got, path):
        base = gone_src.BASE.get(cls) or ('pickle' if cls == 'P' else '%s-%s' % (self.pkg, 'G' if cls == 'Gsub' else cls))
        bt = got.attrs.get('base_type')
        bt = bt.decode() if isinstance(bt, bytes) else bt
        if bt != base:
            raise Violation('%s: recovered data names its kind %r instead of %r' % (path, bt, base))

    def item(self, x):
        """content of a RecoveredGroup entry: a recovered object itself, or (item, attrs)"""
        if isinstance(x, (RecoveredGroup, RecoveredDataset)):
            return x, x.attrs
        if not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict)):
            raise Violation('entry of recovered group is %s, neither recovered nor (item, attributes)' % type(x).__name__)
        return x

    def check(self, spec, got, path, inlost=False):
        k = spec[0]
        if k == 'val':
            d = oracle.diff(spec[1], got)
            if d:
                raise Violation('%s: value beside lost object: %s' % (path, d))
            self.ctx.event('nested-in-lost' if inlost else 'rest-intact')
            return
        if k == 'ref':
            uid = spec[1]
            cls = self.specs[uid][2]
            if uid in self.found and cls not in ('I', 'F', 'C'):
                if self.found[uid] is not got:
                    raise Violation('%s: reference to a %s instance loaded as another object' % (path, cls))
                self.ctx.event('shared')
            else:
                self.check(self.specs[uid], got, path, inlost)
            return
        if k in ('list', 'tuple'):
            if type(got).__name__ != k or len(got) != len(spec[1]):
                raise Violation('%s: %s of %d loaded as %s' % (path, k, len(spec[1]), oracle.short(got)))
            for i, s in enumerate(spec[1]):
                self.check(s, got[i], '%s[%d]' % (path, i), inlost)
            return
        if k == 'dict':
            if type(got) is not dict or list(got) != [a for a, _ in spec[1]]:
                raise Violation('%s: dict loaded as %s' % (path, oracle.short(got)))
            for a, s in spec[1]:
                self.check(s, got[a], '%s[%r]' % (path, a), inlost)
            return
        _, uid, cls, c = spec
        if any(o is got for u, o in self.found.items() if u != uid) and cls not in ('I', 'F', 'C', 'St', 'B'):
            raise Violation('%s: distinct objects loaded as one' % path)
        self.found[uid] = got
        self.ctx.event('distinct')
        if not self.lost(cls):
            return self.normal(cls, c, got, path, inlost)
        self.nlost += 1
        self.ctx.event('recovered:' + cls)
        if inlost:
            self.ctx.event('lost-inside-lost')
        if not isinstance(got, (RecoveredGroup, RecoveredDataset)):
            raise Violation('%s: lost %s instance loaded as %s' % (path, cls, type(got).__name__))
        self.kind(cls, got, path)
        isgroup = isinstance(got, RecoveredGroup)
        if cls in ('L', 'Tu', 'NT', 'S'):
            if isgroup:
                # (a reference to a recovered object is that object itself, its index is part of the name then)
                items = sorted((int(n[4:]), n) for n in got)
                if any(not isinstance(x, (RecoveredGroup, RecoveredDataset)) and x[1]['item_index'] != int(n[4:]) for n, x in got.items()):
                    raise Violation('%s: items recovered under another index' % path)
                if [n for n, _ in items] != list(range(len(c))):
                    raise Violation('%s: items %s recovered, %d dumped' % (path, items, len(c)))
                vals = [self.item(got[n])[0] for _, n in items]
            else:
                vals = list(np.asarray(got).ravel())
                self.ctx.event('empty', not vals)
            if len(vals) != len(c):
                raise Violation('%s: %d items recovered, %d dumped' % (path, len(vals), len(c)))
            if cls == 'S':
                for s in c:
                    if not any(oracle.diff([s[1]], [v]) is None for v in vals):
                        raise Violation('%s: item %r of set not recovered: %s' % (path, s[1], oracle.short(vals)))
            else:
                for i, s in enumerate(c):
                    if not isgroup and s[0] == 'val':
                        if not oracle.num_equal(s[1], vals[i]):
                            raise Violation('%s[%d]: %r recovered as %r' % (path, i, s[1], vals[i]))
                    else:
                        self.check(s, vals[i], '%s<%s>[%d]' % (path, cls, i), True)
        elif cls in ('D', 'OD'):
            if not isgroup or len(got) != len(c):
                raise Violation('%s: %d dict items recovered, %d dumped' % (path, len(got) if isgroup else -1, len(c)))
            for i, (key, s) in enumerate(c):
                n = '"%s"' % key if isinstance(key, str) else repr(key)
                pair = n not in got
                if pair:
                    n = 'data%d' % i
                if n not in got:
                    raise Violation('%s: item with key %r not recovered: %s' % (path, key, list(got)))
                v, at = self.item(got[n])
                if pair:
                    k2, v = v
                    if oracle.diff([key, 'x'], [k2, 'x']):
                        raise Violation('%s: key %r recovered as %r' % (path, key, k2))
                elif not isinstance(v, (RecoveredGroup, RecoveredDataset)) and at.get('key_idx') != i:
                    raise Violation('%s: position of key %r recovered as %r' % (path, key, at.get('key_idx')))
                self.check(s, v, '%s<%s>[%r]' % (path, cls, key), True)
        elif cls in ('St', 'B'):
            want = c.encode('utf8', 'surrogatepass') if cls == 'St' else c
            if isgroup or np.asarray(got).tobytes() != want:
                raise Violation('%s: text %s recovered as %s' % (path, oracle.short(c), oracle.short(got)))
        elif cls in ('I', 'F', 'C'):
            a = np.asarray(got)
            ok = not isgroup and (a.ndim == 0 and oracle.num_equal(c, a[()]) or a.ndim and cls == 'I' and bytes(a.astype('u1')) == str(c).encode())
            if not ok:
                raise Violation('%s: number %r recovered as %s' % (path, c, oracle.short(got)))
        elif cls == 'P':
            if isgroup:
                raise Violation('%s: pickle recovered as group' % path)
            self.pickles.append((np.asarray(got).tobytes(), c, path))
        elif cls in ('G', 'GL', 'GI', 'GO', 'Gsub'):
            self.attrs(c['attrs'], got.attrs, path)
            if not isgroup or set(got) != {n for n, _, _ in c['subs']}:
                raise Violation('%s: sub-items %s recovered, %s dumped' % (path, list(got), [n for n, _, _ in c['subs']]))
            for n, s, a in c['subs']:
                v, at = self.item(got[n])
                if not (s[0] == 'ref' and isinstance(v, (RecoveredGroup, RecoveredDataset))):
                    self.attrs(a, at, '%s/%s' % (path, n))
                self.check(s, v, '%s/%s' % (path, n), True)
        else:
            self.attrs(c['attrs'], got.attrs, path)
            a = np.asarray(got)
            if isgroup:
                raise Violation('%s: dataset recovered as group' % path)
            if cls == 'E':
                ok = a.size == 0 and a.dtype == 'f8'
                self.ctx.event('empty')
            elif cls == 'Vs':
                v = a[()]
                ok = a.shape == () and (v.decode('utf8') if isinstance(v, bytes) else v) == c['data']
            else:
                w = np.asarray(c['data'])
                ok = a.dtype == w.dtype and a.shape == w.shape and a.tobytes() == w.tobytes()
            if not ok:
                raise Violation('%s: data %s recovered as %s' % (path, oracle.short(c['data']), oracle.short(got)))

    def normal(self, cls, c, got, path, inlost):
        """only the loaders are gone"""
        if type(got) is not getattr(self.mod, cls):
            raise Violation('%s: %s instance, not lost, loaded as %s' % (path, cls, type(got).__name__))
        if cls in ('L', 'Tu', 'NT'):
            if len(got) != len(c):
                raise Violation('%s: length %d instead of %d' % (path, len(got), len(c)))
            num = c and all(s[0] == 'val' and isinstance(s[1], (int, float)) for s in c)
            for i, s in enumerate(c):
                if num:
                    if not oracle.num_equal(s[1], got[i]):
                        raise Violation('%s[%d]: %r loaded as %r' % (path, i, s[1], got[i]))
                else:
                    self.check(s, got[i], '%s[%d]' % (path, i), inlost)
        elif cls in ('D', 'OD'):
            if oracle.diff([k for k, _ in c] + ['end'], list(got) + ['end']):
                raise Violation('%s: keys %s instead of %s' % (path, list(got), [k for k, _ in c]))
            for k, s in c:
                self.check(s, got[k], '%s[%r]' % (path, k), inlost)
        elif cls == 'S':
            if set(got) != {s[1] for s in c}:
                raise Violation('%s: set differs' % path)
        elif cls == 'P':
            if got.x != c:
                raise Violation('%s: pickled instance differs' % path)
        elif got != c:
            raise Violation('%s: %r loaded as %r' % (path, c, got))
        self.ctx.event('rest-intact')


SUB = '''
import sys, pickle, warnings
sys.dont_write_bytecode = True
sys.path[:0] = [%r, %r, %r]
warnings.simplefilter('ignore')
import hickle, importlib
from vmon import gone_src
mod = importlib.import_module(%r)
mod.register()
spec = pickle.load(open(%r, 'rb'))
hickle.dump(gone_src.realise(spec, mod, {}), %r, options={'custom': True})
'''


def index_specs(spec, out):
    if spec[0] in ('list', 'tuple'):
        for s in spec[1]:
            index_specs(s, out)
    elif spec[0] == 'dict':
        for _, s in spec[1]:
            index_specs(s, out)
    elif spec[0] == 'lost':
        out[spec[1]] = spec
        c = spec[3]
        if spec[2] in ('L', 'Tu', 'NT', 'S'):
            for s in c:
                index_specs(s, out)
        elif spec[2] in ('D', 'OD'):
            for _, s in c:
                index_specs(s, out)
        elif isinstance(c, dict) and 'subs' in c:
            for _, s, _ in c['subs']:
                index_specs(s, out)


def case(ctx):
    r = ctx.rng
    how = HOW[(0, 1, 2, 3, 0, 1, 3, 2, 4, 5)[ctx.index % 10]]
    ctx.event('lost:' + how)
    pkg = 'gone%dx%d' % (ctx.seed, ctx.index)
    lib = os.path.join(ctx.scratch, 'lib')
    os.mkdir(lib)
    src = os.path.join(lib, pkg + '.py')
    with open(src, 'w') as f:
        f.write(gone_src.SOURCE % dict(pkg=pkg))
    uids = []
    if ctx.index % 7 == 0:
        spec = make_lost(r, 3, uids)
        ctx.event('top-level')
    else:
        lost = [make_lost(r, 2, uids, c) for c in r.sample(list(gone_src.BASE) + list(gone_src.OWN) + ['P'], 4)]
        spec = ('dict', [('l', ('list', lost + [('val', 'end')])), ('refs', ('tuple', [('ref', r.choice(uids)) for _ in range(3)] + [('val', 'end')])),
                         ('more', make_spec(r, 3, uids)), ('more2', make_spec(r, 3, uids))])
    specs = {}
    index_specs(spec, specs)
    fn = ctx.path()
    sys.path.insert(0, lib)
    importlib.invalidate_caches()
    mod = None
    try:
        if how.startswith('other-process'):
            with open(ctx.scratch + '/spec', 'wb') as f:
                pickle.dump(spec, f, protocol=5)    # keeps byte order
            p = subprocess.run([sys.executable, '-c', SUB % (VERIF, REPO, lib, pkg, ctx.scratch + '/spec', fn)], capture_output=True, text=True)
            if p.returncode:
                raise HarnessError('dump in other process failed: ' + p.stderr[-1500:])
            if how.endswith('here'):
                mod = importlib.import_module(pkg)
        else:
            mod = importlib.import_module(pkg)
            mod.register()
            hk.dump(ctx, gone_src.realise(spec, mod, {}), fn, options={'custom': True})
    finally:
        if how != 'loader-gone':
            sys.path.remove(lib)
    classlost = how in ('module-gone', 'class-gone', 'import-error', 'other-process')
    saved = {}
    try:
        if how == 'module-gone':
            sys.modules.pop(pkg)
        elif how == 'class-gone':
            for n in list(gone_src.BASE) + list(gone_src.OWN) + ['P']:
                saved[n] = getattr(mod, n)
                delattr(mod, n)
        elif how == 'import-error':
            with open(src, 'w') as f:
                f.write(r.choice(('raise ImportError("needs something else")\n', 'from os import no_such_name\n', 'import no_such_module_%s\n' % pkg)))
            sys.modules.pop(pkg)
            sys.path.insert(0, lib)
            importlib.invalidate_caches()
        elif how == 'loader-gone':
            # as if written by loaders unknown here
            with h5py.File(fn, 'r+') as f:
                tt = f['hickle_types_table']
                for n in [n for n in tt if n.startswith(pkg + '-')]:
                    tt.move(n, 'o' + n)
            pkg2 = 'o' + pkg
        raw = open(fn, 'rb').read()
        for handle in r.sample(('name', 'r', 'r+'), 2):
            ck = Checker(ctx, pkg2 if how == 'loader-gone' else pkg, classlost, mod)
            ck.specs = specs
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                try:
                    if handle == 'name':
                        got = hickle.load(fn)
                    else:
                        with h5py.File(fn, handle) as f:
                            got = hickle.load(f)
                except Exception as e:
                    raise Violation('%s (%s): load raised %s: %s' % (how, handle, type(e).__name__, str(e)[:300]))
            ctx.event('handle:' + handle)
            ck.check(spec, got, 'obj')
            nw = sum(issubclass(x.category, DataRecoveredWarning) for x in w)
            if ck.nlost and not nw:
                raise Violation('%s: %d objects recovered without any warning' % (how, ck.nlost))
            if not ck.nlost and nw:
                raise Violation('%s: recovery warning though nothing is lost' % how)
            ctx.event('warned' if nw else 'nothing-lost-no-warning')
            if handle != 'r+' and open(fn, 'rb').read() != raw:
                raise Violation('load changed the file')
            ctx.event('file-unchanged')
            pickles = ck.pickles
    finally:
        if lib in sys.path:
            sys.path.remove(lib)
        for n, c in saved.items():
            setattr(mod, n, c)
    # with the classes back nothing is missing
    if how in ('module-gone', 'class-gone'):
        sys.modules[pkg] = mod
        for data, c, path in pickles:
            if pickle.loads(data).x != c:
                raise Violation('%s: recovered pickle holds something else' % path)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            hickle.load(fn)
        if any(issubclass(x.category, DataRecoveredWarning) for x in w):
            raise Violation('recovery warning though nothing is lost any more')
        ctx.event('restored')
        ctx.event('nothing-lost-no-warning')
    sys.modules.pop(pkg, None)
    shape = repr([(s[2], len(s[3]) if isinstance(s[3], list) else 0) for s in specs.values()])
    ctx.evaluated(how + shape, bool(specs), '%s: %s' % (how, shape[:300]))

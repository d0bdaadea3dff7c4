"""C14: registered loaders are used exactly for their classes and options."""
import collections, os, sys, textwrap, types, warnings
import h5py, numpy as np
import hickle
from hickle import lookup
from hickle.helpers import PyContainer
from hickle.lookup import LoaderManager, SerializedWarning
from vmon import core, dyn, gen, hk, oracle, types_for_tests as T
from vmon.core import Violation

ID = 'C14'
LEVEL = 'exploration'
NCASES = {'quick': 240, 'thorough': 5000}
MIN_DISTINCT = {'quick': 150, 'thorough': 2500}
REQUIRED = ['register:global', 'register:custom', 'register:both', 'loader:dataset', 'loader:container', 'memoise:off', 'used:own', 'used:inherited', 'used:builtin-base', 'used:pickle', 'option:on', 'option:off', 'option:false', 'attrs-delivered', 'subitems-delivered', 'shared-subitems-delivered',
            'interleaved', 'multiple-inheritance', 'discovered:package', 'discovered:module', 'discovered:submodule', 'discovered:fresh-process', 'discovered:compiled', 'discovered:main', 'protected', 'protected-intact', 'options-untouched', 'log-compared', 'unknown-option']
RULE = ('random class hierarchies (plain, builtin-derived, multiple inheritance) with loaders (dataset or container, memoising or not) registered globally, under the option, both or not at all; structures of instances dumped with and '
        'without the option at several paths of one file and loaded without any; every loader call is logged and the log compared with a model of method resolution (option first, most specific class first); attributes and sub-items '
        'received on load compared with those supplied; loaders discovered from hickle_loaders folders; registrations that would replace core handling must be refused and leave it intact; distinct by hierarchy and structure')
ASSUMPTIONS = ["'custom' is the only option hickle knows"]


class Base:
    """instances: payload attribute, equality by class and payload"""


def attr_values(r):
    out = {}
    for i in range(r.randint(0, 5)):
        out['%s%d' % (r.choice(('a', 'note', 'unit ', 'ü', 'key_', 'x.y')), i)] = r.choice((lambda: gen.rsmallint(r), lambda: r.random(), lambda: 'text %d ü' % i, lambda: np.arange(3), lambda: True, lambda: False, lambda: 0, lambda: 0.0, lambda: np.float32(1.5), lambda: '', lambda: np.zeros(2), lambda: np.array([[1.5, 2], [3, 4]])))()
    return out


def same_attr(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, bytes):
        return bytes(b) == a if not isinstance(b, str) else False
    if isinstance(a, str):
        return isinstance(b, str) and a == b
    return a == b


class LoaderKit:
    """a loader for one class and one option; logs its uses and checks what it gets back"""

    def __init__(self, ctx, r, cls, option, uid):
        self.cls, self.option, self.uid = cls, option, uid
        self.hkl = ('vm-%s-%s' % (uid, 'same' if r.random() < .5 else option or 'g')).encode()
        self.kind = r.choice(('dataset', 'container'))
        self.memoise = r.random() < .75
        self.attrs = attr_values(r)
        self.subs = [(r.choice(('first', 'second', 'x y', 'data', 'ünï')) + str(i), attr_values(r)) for i in range(r.randint(0, 3))]
        self.twins = ('twin a', 'twin b') if r.random() < .5 else ()
        self.tag = '%s/%s' % (cls.__name__, option)
        self.ctx = ctx
        ctx.event('loader:' + self.kind)
        if not self.memoise:
            ctx.event('memoise:off')
        kit = self

        def create(obj, h_group, name, **kwargs):
            dyn.LOG.append(('create', kit.tag, type(obj).__name__))
            if kit.kind == 'dataset':
                d = h_group.create_dataset(name, data=np.frombuffer(repr(obj.payload_repr()).encode(), 'u1'))
                for k, v in kit.attrs.items():
                    d.attrs[k] = v
                return d, ()
            g = h_group.create_group(name)
            for k, v in kit.attrs.items():
                g.attrs[k] = v
            # the last two sub-items are one object under two names, with attributes of their own
            same = ['same', None]
            return g, ([('payload', obj.get_payload(), {'role': 'payload'}, kwargs)] + [(n, [n, i], dict(a, role='sub'), kwargs) for i, (n, a) in enumerate(kit.subs)]
                       + [(n, same, dict(kit.attrs, role=n), kwargs) for n in kit.twins])

        def check_attrs(what, want, got):
            for k, v in want.items():
                if k not in got:
                    raise Violation('%s: attribute %r not delivered to the loader (%s)' % (kit.tag, k, what))
                if not same_attr(v, got[k]):
                    raise Violation('%s: attribute %r delivered as %r instead of %r (%s)' % (kit.tag, k, got[k], v, what))
            if want:
                kit.ctx.event('attrs-delivered')

        def load(h_node, base_type, py_obj_type):
            dyn.LOG.append(('load', kit.tag, py_obj_type.__name__))
            check_attrs('dataset', kit.attrs, dict(h_node.attrs.items()))
            return py_obj_type.from_payload_repr(bytes(h_node[()]).decode())

        class Container(PyContainer):
            def __init__(self, h5_attrs, base_type, object_type):
                super().__init__(h5_attrs, base_type, object_type, _content={})
                dyn.LOG.append(('load', kit.tag, object_type.__name__))
                check_attrs('group', kit.attrs, dict(h5_attrs.items()))

            def append(self, name, item, h5_attrs):
                self._content[name] = (item, dict(h5_attrs.items()))

            def convert(self):
                names = {'payload'} | {n for n, _ in kit.subs} | set(kit.twins)
                if set(self._content) != names:
                    raise Violation('%s: sub-items %s delivered, %s supplied' % (kit.tag, sorted(self._content), sorted(names)))
                for i, (n, a) in enumerate(kit.subs):
                    item, at = self._content[n]
                    d = oracle.diff([n, i], item)
                    if d:
                        raise Violation('%s: sub-item %r: %s' % (kit.tag, n, d))
                    check_attrs('sub-item', dict(a, role='sub'), at)
                    kit.ctx.event('subitems-delivered')
                for n in kit.twins:
                    item, at = self._content[n]
                    if item != ['same', None] or item is not self._content['twin a'][0]:
                        raise Violation('%s: sub-item %r is %r' % (kit.tag, n, item))
                    check_attrs('shared sub-item', dict(kit.attrs, role=n), at)
                    kit.ctx.event('shared-subitems-delivered')
                return self.object_type.from_payload(self._content['payload'][0])
        self.args = (cls, self.hkl, create, load if self.kind == 'dataset' else None, Container if self.kind == 'container' else None, self.memoise, option)

    def register(self):
        LoaderManager.register_class(*self.args)


class PayloadMixin:
    def get_payload(self):
        return self.__dict__['payload']

    def payload_repr(self):
        return self.__dict__['payload']

    @classmethod
    def from_payload(cls, p):
        self = cls()
        self.payload = p
        return self

    @classmethod
    def from_payload_repr(cls, s):
        import ast
        return cls.from_payload(ast.literal_eval(s))

    def __eq__(self, other):
        return type(self) is type(other) and self.__dict__ == other.__dict__ and (not isinstance(self, (list, dict, str, int)) or self._plain() == other._plain())

    def _plain(self):
        for b in (list, dict, str, int):
            if isinstance(self, b):
                return b(self)
    __hash__ = None


PayloadMixin.__module__ = 'vmon.dyn'
dyn.PayloadMixin = PayloadMixin


def make_world(ctx, r):
    classes, kits = [], {}
    roots = [(PayloadMixin,)] * 3 + [(PayloadMixin, list), (PayloadMixin, dict), (PayloadMixin, str)]
    for i in range(r.randint(3, 8)):
        if classes and r.random() < .65:
            bases = (r.choice(classes),)
            if r.random() < .25 and len(classes) > 1:
                other = r.choice(classes)
                if other is not bases[0]:
                    bases = (bases[0], other)
        else:
            bases = r.choice(roots)
        name = 'K%d_%d_%d' % (ctx.seed, ctx.index, i)
        try:
            c = type(name, bases, {})
            c()
        except TypeError:
            continue
        if len(bases) > 1 and PayloadMixin not in bases:
            ctx.event('multiple-inheritance')
        dyn.add(c)
        classes.append(c)
        how = r.choice(('none', 'global', 'custom', 'both', 'global', 'none'))
        if how != 'none':
            ctx.event('register:' + how)
        for option in {'none': (), 'global': (None,), 'custom': ('custom',), 'both': (None, 'custom')}[how]:
            kit = LoaderKit(ctx, r, c, option, '%d-%d-%d' % (ctx.seed, ctx.index, i))
            kit.register()
            kits[c, option] = kit
    return classes, kits


def resolve(cls, kits, custom):
    """(kit | builtin type | None)"""
    for m in cls.__mro__:
        if custom and (m, 'custom') in kits:
            return kits[m, 'custom']
        if (m, None) in kits:
            return kits[m, None]
        if m in (list, dict, str):
            return m
    return None


def instance(r, c):
    if issubclass(c, str):
        x = c('text %d' % r.randrange(100))
    else:
        x = c()
    if issubclass(c, list):
        x.extend([1, 'x', r.randrange(100)])
    elif issubclass(c, dict):
        x.update(a=1, b='y%d' % r.randrange(100))
    x.payload = r.choice(([1, 'p%d' % r.randrange(100)], {'k': (1, 2.5)}, 'str%d' % r.randrange(100), r.randrange(100), None))
    return x


def place(r, xs):
    """a structure containing all of xs, some of them twice; returns (structure, getter of instances in order)"""
    shared = r.choice(xs)
    obj = {'l': list(xs) + ['end'], 't': (shared, {'again': shared}), 'd': {'k%d' % i: x for i, x in enumerate(xs[:2])}, 'n': [1, 'native', T.ListSub([1, 'x'])]}
    get = lambda o: list(o['l'][:-1]) + [o['t'][0], o['t'][1]['again']] + list(o['d'].values())
    return obj, get


def expected_log(occ, kits, custom, verb):
    """multiset of loader uses: memoised instances once, others per occurrence (pickled and builtin ones not logged)"""
    want = collections.Counter()
    seen = set()
    for x in occ:
        k = resolve(type(x), kits, custom)
        if isinstance(k, LoaderKit):
            if k.memoise:
                if id(x) in seen:
                    continue
                seen.add(id(x))
            want[(verb, k.tag, type(x).__name__)] += 1
    return want


def case_hierarchy(ctx, r):
    classes, kits = make_world(ctx, r)
    if not classes:
        return
    fn = ctx.path()
    stored = []
    sig = []
    for step in range(r.randint(2, 5)):
        xs = [instance(r, r.choice(classes)) for _ in range(r.randint(1, 6))]
        obj, get = place(r, xs)
        opt = r.choice(({'custom': True}, {'custom': True}, {'custom': 1}, {'custom': 'yes'}, {'custom': np.True_}, {}, None, {'custom': False}, {'custom': 0}, {'custom': None}))
        custom = bool(opt and opt.get('custom'))
        ctx.event('option:' + ('on' if custom else 'false' if opt else 'off'))
        kw = {} if opt is None else dict(options=opt)
        before = None if opt is None else dict(opt)
        del dyn.LOG[:]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                hickle.dump(obj, fn, mode='a', path='p%d' % step, **kw)
            except Violation:
                raise
            except Exception as e:
                raise Violation('dump raised %s: %s' % (type(e).__name__, str(e)[:300]))
        if opt is not None and opt != before:
            raise Violation('options dictionary altered: %s' % opt)
        ctx.event('options-untouched')
        want = expected_log(get(obj), kits, custom, 'create')
        got = collections.Counter(dyn.LOG)
        if got != want:
            raise Violation('option %s: loader calls on dump %s, expected %s' % (custom, dict(got - want), dict(want - got)))
        npick = len({id(x) for x in xs if resolve(type(x), kits, custom) is None})
        warned = sum(issubclass(x.category, SerializedWarning) for x in w)
        if warned != npick:
            raise Violation('%d objects pickled, %d without loader' % (warned, npick))
        for x in xs:
            k = resolve(type(x), kits, custom)
            ctx.event('used:' + ('pickle' if k is None else 'builtin-base' if isinstance(k, type) else 'own' if k.cls is type(x) else 'inherited'))
        ctx.event('log-compared')
        stored.append((step, obj, get, custom))
        sig.append('%s:%s' % (custom, ','.join(str(getattr(resolve(type(x), kits, custom), 'kind', resolve(type(x), kits, custom))) for x in xs)))
    r.shuffle(stored)
    for step, obj, get, custom in stored + stored[:1]:
        del dyn.LOG[:]
        res = hk.load(ctx, fn, 'p%d' % step, path='p%d' % step)
        got = collections.Counter(dyn.LOG)
        want = expected_log(get(obj), kits, custom, 'load')
        if got != want:
            raise Violation('option %s: loader calls on load %s, expected %s' % (custom, dict(got - want), dict(want - got)))
        a, b = get(obj), get(res)
        if len(a) != len(b):
            raise Violation('structure differs')
        for x, y in zip(a, b):
            if type(x) is not type(y):
                raise Violation('%s instance loaded as %s' % (type(x).__name__, type(y).__name__))
            k = resolve(type(x), kits, custom)
            if isinstance(k, type):
                if x._plain() != y._plain():
                    raise Violation('contents of %s instance differ' % type(x).__name__)
            elif isinstance(k, LoaderKit):
                d = oracle.diff(x.payload, y.payload)
                if d:
                    raise Violation('payload: %s' % d)
            elif x != y:
                raise Violation('pickled instance differs')
            if isinstance(k, LoaderKit) and k.memoise:
                if any((x is p) != (y is q) for p, q in zip(a, b)):
                    raise Violation('sharing of instances with a memoising loader differs')
        d = oracle.diff(obj['n'], res['n'])
        if d:
            raise Violation('native values beside: %s' % d)
        ctx.event('log-compared')
    ctx.event('interleaved')
    ctx.evaluated('%s %s' % ('|'.join(sorted(sig)), [len(c.__mro__) for c in classes]), bool(kits), 'loaders %s; %s' % (sorted(k.tag for k in kits.values()), sig))


PKG = '''
from vmon import dyn
class Thing:
    def __init__(self, v=None): self.v = v
    def __eq__(self, o): return type(o) is type(self) and o.v == self.v
    __hash__ = None
class SubThing(Thing): pass
class Other:
    def __init__(self, v=None): self.v = v
    def __eq__(self, o): return type(o) is type(self) and o.v == self.v
    __hash__ = None
'''
LOADER = '''
from %(mod)s import Thing
from vmon import dyn
def create(obj, h_group, name, **kw):
    dyn.LOG.append(('create', '%(pkg)s'))
    d = h_group.create_dataset(name, data=obj.v, **{k: v for k, v in kw.items() if k not in ('compression', 'compression_opts', 'shuffle', 'fletcher32')})
    return d, ()
def load(h_node, base_type, py_obj_type):
    dyn.LOG.append(('load', '%(pkg)s'))
    return py_obj_type(int(h_node[()]))
class_register = [[Thing, b'%(pkg)s-thing', create, load%(extra)s]]
exclude_register = []
'''


def case_discovery(ctx, r):
    kind = ('package', 'module', 'submodule')[(ctx.index // 4) % 3]
    pkg = 'vpkg_%d_%d' % (ctx.seed, ctx.index)
    root = os.path.join(ctx.scratch, 'lib')
    opt = r.random() < .3
    if kind == 'module':
        os.makedirs(root + '/hickle_loaders')
        open('%s/%s.py' % (root, pkg), 'w').write(PKG)
        mod, ldir = pkg, root + '/hickle_loaders'
    else:
        os.makedirs('%s/%s/hickle_loaders' % (root, pkg))
        ldir = '%s/%s/hickle_loaders' % (root, pkg)
        if kind == 'package':
            open('%s/%s/__init__.py' % (root, pkg), 'w').write(PKG)
            mod = pkg
        else:
            open('%s/%s/__init__.py' % (root, pkg), 'w').write('')
            os.makedirs('%s/%s/sub' % (root, pkg))
            open('%s/%s/sub/__init__.py' % (root, pkg), 'w').write('')
            open('%s/%s/sub/deep.py' % (root, pkg), 'w').write(PKG)
            mod = pkg + '.sub.deep'
    lfile = '%s/load_%s.py' % (ldir, pkg)
    open(lfile, 'w').write(LOADER % dict(mod=mod, pkg=pkg, extra=", None, True, 'custom'" if opt else ''))
    if r.random() < .3:
        import py_compile
        py_compile.compile(lfile, lfile + 'c', doraise=True)
        os.remove(lfile)
        ctx.event('discovered:compiled')
    sys.path.insert(0, root)
    try:
        import importlib
        importlib.invalidate_caches()
        m = importlib.import_module(mod)
        t = m.Thing(7)
        obj = {'a': t, 'b': [t, m.SubThing(8), m.Other(9), m.Thing(10)], 'n': [1, 'x']}
        fn = ctx.path()
        del dyn.LOG[:]
        use = opt and r.random() < .6
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                hickle.dump(obj, fn, **(dict(options={'custom': True}) if use else {}))
            except Exception as e:
                raise Violation('dump with loader in hickle_loaders raised %s: %s' % (type(e).__name__, str(e)[:300]))
        n = len(dyn.LOG)
        active = use or not opt
        if n != (3 if active else 0):
            raise Violation('%s: loader in hickle_loaders used %d times instead of %d' % (kind, n, 3 if active else 0))
        nw = sum(issubclass(x.category, SerializedWarning) for x in w)
        if nw != (1 if active else 4):
            raise Violation('%s: %d objects pickled instead of %d' % (kind, nw, 1 if active else 4))
        del dyn.LOG[:]
        res = hk.load(ctx, fn, obj)
        if len(dyn.LOG) != (3 if active else 0):
            raise Violation('%s: loader in hickle_loaders used %d times on load' % (kind, len(dyn.LOG)))
        d = oracle.diff(obj, res)
        if d or res['a'] is not res['b'][0]:
            raise Violation('%s: %s' % (kind, d or 'sharing lost'))
        ctx.event('discovered:' + kind)
        ctx.evaluated('discovery %s %s %s' % (kind, opt, use), True, 'loader of %s discovered in hickle_loaders (%s, option %s)' % (kind, 'used' if active else 'not used', opt))
        if ctx.index % 24 < 4:
            import subprocess
            code = ("import sys; sys.dont_write_bytecode=True; sys.path[:0]=[%r,%r,%r]\nimport warnings; warnings.simplefilter('ignore')\nimport hickle\nfrom vmon import dyn\nx=hickle.load(%r)\nprint('RESULT', type(x['a']).__name__, x['a'].v, x['b'][1].v, x['b'][2].v, x['b'][3].v, x['a'] is x['b'][0], len(dyn.LOG))"
                    % (root, core.REPO, os.path.dirname(os.path.dirname(os.path.abspath(__file__))), fn))
            p = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, timeout=100)
            want = 'RESULT Thing 7 8 9 10 True %d' % (3 if active else 0)
            if want not in p.stdout:
                if 'RESULT' in p.stdout or core.REPO + '/hickle' in p.stderr:
                    raise Violation('fresh process: %s %s' % (p.stdout[-300:], p.stderr[-500:]))
                raise RuntimeError(p.stderr[-500:])
            ctx.event('discovered:fresh-process')
    finally:
        sys.path.remove(root)
        for n in [n for n in sys.modules if n == pkg or n.startswith(pkg + '.')]:
            del sys.modules[n]


MAIN = '''
import sys
sys.dont_write_bytecode = True
sys.path[:0] = [%(repo)r, %(verif)r]
import warnings
import hickle
from vmon import dyn
%(pkg)s
if __name__ == '__main__':
    t = Thing(7)
    obj = {'a': t, 'b': [t, SubThing(8), Other(9), Thing(10)], 'n': [1, 'x']}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if sys.argv[2] == 'dump':
            hickle.dump(obj, sys.argv[1], options=%(options)r)
            x = obj
        else:
            x = hickle.load(sys.argv[1])
    print('RESULT', type(x['a']) is Thing, x == obj, x['a'] is x['b'][0], len(dyn.LOG), len(w))
'''


def case_main(ctx, r):
    """a script: its classes live in __main__, its loader beside it"""
    import subprocess
    name = 'vscript_%d_%d' % (ctx.seed, ctx.index)
    os.makedirs(os.path.join(ctx.scratch, 'hickle_loaders'))
    opt = r.random() < .4
    use = opt and r.random() < .6
    active = use or not opt
    script = os.path.join(ctx.scratch, name + '.py')
    open(script, 'w').write(MAIN % dict(repo=core.REPO, verif=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), pkg=PKG, options={'custom': True} if use else {}))
    open(os.path.join(ctx.scratch, 'hickle_loaders', 'load_%s.py' % name), 'w').write(LOADER % dict(mod='__main__', pkg=name, extra=", None, True, 'custom'" if opt else ''))
    fn = ctx.path()
    for what in ('dump', 'load'):
        # relative and absolute names of the script
        cmd = [sys.executable, script if r.random() < .5 else os.path.basename(script), fn, what]
        p = subprocess.run(cmd, cwd=ctx.scratch, capture_output=True, text=True, timeout=100)
        want = 'RESULT True True True %d %d' % (3 if active else 0, (1 if active else 4) if what == 'dump' else 0)
        if want not in p.stdout:
            if 'RESULT' in p.stdout or core.REPO + '/hickle' in p.stderr:
                raise Violation('script with loader in hickle_loaders, %s (option %s, used %s): %s instead of %s %s' % (what, opt, use, p.stdout[-300:], want, p.stderr[-500:]))
            raise RuntimeError(p.stderr[-500:])
        ctx.event('discovered:main')
    ctx.evaluated('discovery main %s %s' % (opt, use), True, 'loader of a script (%s, option %s)' % ('used' if active else 'not used', opt))


def mine(*a, **k):
    raise Violation('loader which must not have been registered was used')


class Mine(PyContainer):
    def __init__(self, *a, **k):
        raise Violation('container which must not have been registered was used')


def case_protected(ctx, r):
    c = dyn.add(type('P%d_%d' % (ctx.seed, ctx.index), (PayloadMixin,), {}))
    bad = [('class', k) for k in (object, type, getattr(lookup, '_DictItem', type), T.func, len, types.FunctionType, types.BuiltinFunctionType, types.MethodType, T.Outer.smeth)]
    bad += [('base', k) for k in (b'pickle', b'!node-reference!', b'!recover!')]
    bad += [('exclude', k) for k in (b'pickle', b'dict_item', b'!node-reference!', b'!recover!')]
    bad += [('option', k) for k in ('no such option', 'Custom', '')]
    bad += [('legacy-item', b'dict_item')]
    for kind, k in r.sample(bad, 8):
        opt = r.choice((None, 'custom'))
        try:
            if kind == 'class':
                LoaderManager.register_class(k, b'vm-prot', mine, mine, Mine, True, opt)
            elif kind == 'base':
                LoaderManager.register_class(c, k, mine, mine, Mine, r.random() < .5, opt)
            elif kind == 'exclude':
                LoaderManager.register_class_exclude(k, opt)
            elif kind == 'legacy-item':
                LoaderManager.register_class(c, k, mine, mine, Mine, True, 'hickle-4.x')
            else:
                LoaderManager.register_class(c, b'vm-opt', mine, mine, None, True, k)
        except Exception as e:
            ctx.event('protected')
            ctx.evaluated('protected %s %s %s' % (kind, k, opt), True, 'registration %s %s refused: %s' % (kind, k, type(e).__name__))
        else:
            raise Violation('registration of %s %r (option %s) was accepted' % (kind, k, opt))
    # core handling is intact
    sh = [1, 'shared']
    x = c()
    x.payload = 5
    obj = {'refs': [sh, sh, {'k': sh}], 'f': [T.func, len, T.Plain, type], 'p': T.Data(1, 2), (1, 'a'): sh, 'x': x, 'o': T.Plain(y=1)}
    fn = ctx.path()
    for kw in ({}, dict(options={'custom': True})):
        hk.dump(ctx, obj, fn, **kw)
        res = hk.load(ctx, fn, obj)
        d = oracle.diff(obj, res) or oracle.alias_diff(obj, res)[0]
        if d:
            raise Violation('after refused registrations: %s' % d)
    ctx.event('protected-intact')
    # an unknown option on dump is refused, too, and options of other calls stay as they are
    ok, e = hk.try_dump(obj, fn, options={'nonsense': True})
    if ok:
        raise Violation('unknown option accepted by dump')
    ctx.event('unknown-option')
    hk.dump(ctx, obj, fn)
    d = oracle.diff(obj, hk.load(ctx, fn, obj))
    if d:
        raise Violation(d)


def case(ctx):
    k = ctx.index % 4
    (case_main if ctx.index % 16 == 7 else case_discovery if k == 3 else case_protected if ctx.index % 8 == 6 else case_hierarchy)(ctx, ctx.rng)

"""C12: objects without a loader are pickled with a warning and load back equal."""
import array, collections, datetime, decimal, fractions, functools, io, ipaddress, operator, pathlib, pickle, re, sys, threading, types, uuid, warnings
import h5py, numpy as np
import hickle
from hickle.helpers import NotHicklable
from hickle.lookup import LoaderManager, SerializedWarning
from vmon import gen, hk, oracle, types_for_tests as T
from vmon.core import Violation

ID = 'C12'
LEVEL = 'exploration'
NCASES = {'quick': 300, 'thorough': 6000}
MIN_DISTINCT = {'quick': 800, 'thorough': 8000}
POSITIONS = ('top', 'list', 'tuple', 'dict-value', 'dict-key', 'dict-key-tuple', 'set', 'objarray', 'listsub', 'nested', 'shared')
REQUIRED = (['pos:' + p for p in POSITIONS] + ['compared', 'warnings-compared', 'native-silent', 'unpicklable-raised', 'declined', 'function', 'class', 'instance', 'enum', 'frozenset', 'datetime', 'dataclass', 'nodes-compared', 'with-options', 'loader-error-raised', 'declined-by-loader', 'many'])
RULE = ('random picklable objects of %s kinds without dedicated representation, mixed with native values at 11 kinds of positions; the serialization warnings issued are compared, type by type, with a model of which objects must be '
        'pickled (each exactly once), as is the number of pickle nodes in the file; native-only structures must issue none; objects that cannot be pickled must make dump raise; loaders declining objects must fall back to pickle; distinct by structure' % 'about 45')
ASSUMPTIONS = ['objects with reference semantics on unpickling (functions, classes, enum members, modules level constants) must come back identical, all others equal']


class Declined:
    """class with a loader which declines part of its instances"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is type(self) and o.v == self.v

    def __hash__(self):
        return hash(repr(self.v))


class DeclinedSub(Declined):
    pass


class NotForMe(NotHicklable):
    pass


class Odd(UnicodeError):
    pass


LOADER_ERRORS = [TypeError, ValueError, OSError, KeyError, RuntimeError, AttributeError, NotImplementedError, UnicodeError, Odd, AssertionError, LookupError, OverflowError, RecursionError, MemoryError, pickle.PicklingError, pickle.PickleError, ArithmeticError, EOFError, ImportError, Exception]


def create_declined(obj, h_group, name, **kw):
    if isinstance(obj.v, tuple) and obj.v[0] == 'raise':
        raise LOADER_ERRORS[obj.v[1]]('loader failed')
    if obj.v == 'subclass':
        raise NotForMe('not native')
    if obj.v != 'native':
        raise NotHicklable('not native')
    return h_group.create_dataset(name, data=1), ()


LoaderManager.register_class(Declined, b'vmon-declined', create_declined, lambda h_node, base_type, py_obj_type: py_obj_type('native'))
# a module made at run time, without spec and file
_RT = types.ModuleType('vmon_runtime_module')
exec('''class R:
    def __init__(self, v): self.v = v
    def __eq__(self, o): return type(o) is type(self) and o.v == self.v
    def __hash__(self): return hash(self.v)
''', _RT.__dict__)
sys.modules['vmon_runtime_module'] = _RT
Declined.__module__ = DeclinedSub.__module__ = __name__


def mk(r):
    i = r.randrange(10**6)
    return [
        ('frozenset', lambda: frozenset(r.sample(range(100), r.randint(0, 5)))), ('frozenset', lambda: frozenset({'a', (1, 2), None, i})),
        ('datetime', lambda: datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds=i)), ('datetime', lambda: datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(hours=3)))), ('datetime', lambda: datetime.date(2020, 1, 1 + i % 28)), ('datetime', lambda: datetime.timedelta(i, i)), ('datetime', lambda: datetime.time(1, 2, 3, i)),
        ('number', lambda: decimal.Decimal('%d.%d' % (i, i))), ('number', lambda: fractions.Fraction(i, 7)), ('misc', lambda: uuid.UUID(int=i)), ('misc', lambda: pathlib.PurePosixPath('/a/%d' % i)), ('misc', lambda: re.compile('a%d' % i)),
        ('misc', lambda: range(i % 5, i % 9 + 7)), ('misc', lambda: slice(1, i)), ('misc', lambda: bytearray(b'ab%d' % i)), ('misc', lambda: collections.deque([i, 'x'], 5)), ('misc', lambda: types.SimpleNamespace(a=i)), ('misc', lambda: ipaddress.ip_address(i)), ('misc', lambda: array.array('i', [1, i])),
        ('enum', lambda: T.Color.RED), ('enum', lambda: T.Color.BLUE), ('dataclass', lambda: T.Frozen(i, 'x')), ('dataclass', lambda: T.Data(i, [1, {'k': 'v'}])), ('instance', lambda: T.Plain(x=i, y=[i])), ('instance', lambda: T.PlainSub(z=None)), ('instance', lambda: T.Slots(i, 'b')),
        ('instance', lambda: T.Reduced(i)), ('instance', lambda: _RT.R(i)), ('instance', lambda: T.StateD([i])), ('instance', lambda: T.Outer.Inner(i)), ('misc', lambda: T.MyError('a', i)), ('misc', lambda: collections.UserDict({1: i})),
        ('function', lambda: T.func), ('function', lambda: T.func2), ('function', lambda: len), ('function', lambda: np.sum), ('function', lambda: T.Outer.smeth), ('function', lambda: operator.add), ('function', lambda: np.add),
        ('class', lambda: T.Plain), ('class', lambda: int), ('class', lambda: T.Color), ('class', lambda: T.Outer.Inner), ('class', lambda: np.ndarray), ('class', lambda: type), ('class', lambda: np.float32), ('class', lambda: T.Point),
        ('misc', lambda: Ellipsis), ('misc', lambda: NotImplemented), ('declined', lambda: Declined(i)), ('declined', lambda: DeclinedSub('odd')), ('misc', lambda: functools.partial(T.func, i)), ('class', lambda: collections.OrderedDict),
        ('big', lambda: T.Slots(i, 'b\0é' * r.choice((100, 30000)))), ('big', lambda: frozenset(range(i, i + r.choice((300, 70000))))), ('big', lambda: bytearray(r.choice((255, 256, 65535, 65536, 1 << 20)))),
        ('big', lambda: T.Plain(x=list(range(r.choice((1000, 40000)))), y={str(j): j for j in range(300)})), ('big', lambda: collections.deque(['%d' % j for j in range(20000)])),
    ]


IDENT = (types.FunctionType, types.BuiltinFunctionType, type, np.ufunc, type(Ellipsis), type(NotImplemented), T.Color)


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, IDENT) or type(a).__name__ == '_ArrayFunctionDispatcher':
        return a is b
    if isinstance(a, functools.partial):
        return (a.func, a.args, a.keywords) == (b.func, b.args, b.keywords)
    return a == b


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def recorded(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        res = fn()
    return res, w


def check(ctx, build, pickled, what, kw={}):
    """build: object; pickled: objects that must be pickled (by identity once each)"""
    fn = ctx.path()
    try:
        _, w = recorded(lambda: hickle.dump(build, fn, **kw))
    except Exception as e:
        raise Violation('%s: dump raised %s: %s' % (what, type(e).__name__, str(e)[:200]))
    uniq = {id(p): p for p in pickled}.values()
    want = collections.Counter(type(p).__name__ for p in uniq)
    got = collections.Counter()
    for x in w:
        if issubclass(x.category, SerializedWarning):
            names = [n for n in want if repr(n) in str(x.message)]
            m = re.match(r"'+([^']*)'", str(x.message))
            n = m.group(1) if m else (names[0] if names else str(x.message)[:60])
            got[n if n in want or not names else names[0]] += 1
    if got != want:
        raise Violation('%s: serialization warnings for %s, objects to be pickled %s' % (what, dict(got), dict(want)))
    ctx.event('warnings-compared')
    # nodes without type information in the file are the pickles
    n = 0
    with h5py.File(fn, 'r') as f:
        def visit(name, o):
            nonlocal n
            if isinstance(o, h5py.Dataset) and 'type' not in o.attrs and not h5py.check_ref_dtype(o.dtype):
                n += 1
        visit('', f['data'])
        if isinstance(f['data'], h5py.Group):
            f['data'].visititems(visit)
    if n != sum(want.values()):
        raise Violation('%s: %d pickle nodes in the file, %d objects to be pickled' % (what, n, sum(want.values())))
    ctx.event('nodes-compared')
    try:
        res, w = recorded(lambda: hickle.load(fn))
    except Exception as e:
        raise Violation('%s: load raised %s: %s' % (what, type(e).__name__, str(e)[:200]))
    return res


def case_positions(ctx, r):
    pool = mk(r)
    for _ in range(5):
        kind, f = r.choice(pool)
        x = f()
        pos = r.choice(POSITIONS)
        if pos in ('dict-key', 'dict-key-tuple', 'set') and not hashable(x):
            pos = 'list'
        y = r.choice(pool)[1]()
        native = gen.rvalue(r, 1)
        sub = [x]
        if pos == 'top':
            obj, get = x, lambda o: o
        elif pos == 'list':
            obj, get = [1, x, 'z', native], lambda o: o[1]
        elif pos == 'tuple':
            obj, get = (native, x), lambda o: o[1]
        elif pos == 'dict-value':
            obj, get = {'a': native, 'k': x, 3: 4}, lambda o: o['k']
        elif pos == 'dict-key':
            obj, get = {'a': 1, x: native, 'b': 2}, lambda o: list(o)[1]
        elif pos == 'dict-key-tuple':
            obj, get = {(1, x): native}, lambda o: next(iter(o))[1]
        elif pos == 'set':
            obj, get = {x}, lambda o: next(iter(o))
        elif pos == 'objarray':
            obj = np.empty(3, dtype=object)
            obj[:] = [None, None, 'q']
            obj[1] = x
            get = lambda o: o[1]
        elif pos == 'listsub':
            obj, get = T.ListSub([native, x]), lambda o: o[1]
        elif pos == 'nested':
            obj, get = {'a': [{'b': (1, [x, 'q'])}], 'y': [y, 'w']}, lambda o: o['a'][0]['b'][1][0]
            sub = [x, y]
        else:
            obj, get = {'a': x, 'b': [x, 'q', {'c': x}], 'n': native}, lambda o: o['b'][2]['c']
        ctx.event('pos:' + pos)
        ctx.event(kind)
        kw = r.choice(({}, {}, dict(compression='gzip')))
        if kw:
            ctx.event('with-options')
        res = check(ctx, obj, sub, '%s %s at %s' % (kind, type(x).__name__, pos), kw)
        got = get(res)
        if not equal(x, got):
            raise Violation('%s at %s: %s became %s' % (type(x).__name__, pos, oracle.short(x), oracle.short(got)))
        if pos == 'shared' and not (res['a'] is res['b'][0] is res['b'][2]['c']):
            raise Violation('shared pickled object is not shared after load')
        if pos == 'nested' and not equal(y, res['y'][0]):
            raise Violation('%s became %s' % (oracle.short(y), oracle.short(res['y'][0])))
        if pos in ('list', 'dict-value', 'tuple', 'nested', 'shared', 'listsub'):
            # the native surroundings are untouched
            n2 = {'list': lambda: res[3], 'dict-value': lambda: res['a'], 'tuple': lambda: res[0], 'nested': lambda: native, 'shared': lambda: res['n'], 'listsub': lambda: res[0]}[pos]()
            d = oracle.diff(native, n2)
            if d:
                raise Violation('beside pickled object: %s' % d)
        ctx.event('compared')
        ctx.evaluated('%s %s %s %s' % (type(x).__name__, pos, oracle.signature(native, 1), bool(kw)), True, '%s pickled at %s' % (type(x).__name__, pos))


def case_many(ctx, r):
    """many objects of one class in one dump, dumped repeatedly"""
    f = r.choice((lambda i: T.Data(i, 'x'), lambda i: frozenset([i, 'y']), lambda i: T.Plain(x=i), lambda i: datetime.date.fromordinal(700000 + i), lambda i: Declined(i)))
    xs = [f(i) for i in range(r.choice((70, 130, 300)))]
    obj = {'a': xs[:20], 'b': [tuple(xs[20:]), xs[3]], 'n': [1, 'x']}
    for n in range(3):
        res = check(ctx, obj, xs, 'many %s' % type(xs[0]).__name__)
        for x, y in zip(xs, res['a'] + list(res['b'][0])):
            if not equal(x, y):
                raise Violation('one of many: %s became %s' % (oracle.short(x), oracle.short(y)))
    ctx.event('many')
    ctx.evaluated('many %s %d' % (type(xs[0]).__name__, len(xs)), True, '%d objects of class %s' % (len(xs), type(xs[0]).__name__))


def case_native(ctx, r):
    from scipy import sparse
    obj = {'v': gen.rvalue(r, 4), 'np': [x for x in (gen.rarray(r) for _ in range(4))], 's': [gen.rnpscalar(r) for _ in range(4)], 'dt': np.dtype('i4'), 'm': np.ma.array([1, 2], mask=[0, 1]), 'sub': [T.ListSub([1, 'x']), T.DictSub(a=1), T.StrSub('a'), T.IntSub(4), T.Point(1, 'y'), collections.OrderedDict(a=1)],
           'sp': sparse.csr_matrix([[1, 0], [0, 2]]), 'set': gen.rset(r), 'big': 10**400, 'none': None, 'c': 1j, 'dd': collections.Counter('hello')}
    if r.random() < .2:
        from astropy import units as u
        from astropy.time import Time
        obj['q'] = [3 * u.m, u.Quantity([1, 2], 's'), Time(50000, format='mjd')]
    fn = ctx.path()
    keep = []
    for a in obj['np']:
        ok, e = hk.try_dump(a, fn)
        if ok:
            keep.append(a)
    obj['np'] = keep
    try:
        _, w = recorded(lambda: hickle.dump(obj, fn))
    except Exception as e:
        raise Violation('dump of native values raised %r' % e)
    bad = [str(x.message)[:100] for x in w if issubclass(x.category, SerializedWarning)]
    if bad:
        raise Violation('native values were pickled: %s' % bad[:4])
    ctx.event('native-silent')
    ctx.event('compared')
    d = oracle.diff(obj['v'], hk.load(ctx, fn, obj)['v'])
    if d:
        raise Violation(d)
    ctx.evaluated('native %s' % oracle.signature(obj, 4), True, 'native only structure: no warning')


def deep():
    """nested too deep for pickle"""
    x = ()
    for _ in range(60000):
        x = [x]
    return x


def case_unpicklable(ctx, r):
    def gen_():
        yield 1

    class Local:
        pass
    loc = Local()
    bads = [lambda: (lambda: 0), gen_, lambda: types, lambda: memoryview(b'abc'), lambda: threading.Lock(), lambda: {}.keys(), lambda: loc, lambda: Local, lambda: T.FailDump(), lambda: T.Data(1, lambda: 0), lambda: T.Plain(x=[threading.Lock()]), lambda: open('/dev/null'),
            lambda: functools.partial(lambda x: x, 1), lambda: Declined(threading.Lock()), lambda: T.Data(1, deep()), lambda: T.Plain(x=deep()), lambda: iter({1: 2}.items()) and (i for i in ()), lambda: sys_frame()]
    T.FailDump.EXC = r.choice((TypeError, ValueError, RuntimeError, AttributeError))
    for f in r.sample(bads, 6):
        x = f()
        obj = r.choice((lambda: x, lambda: [1, x, 2], lambda: {'a': 1, 'k': [x]}, lambda: (1, ('a', x)), lambda: T.ListSub([x]), lambda: {'a': {'b': {'c': x}}}, lambda: objarr(x)))()
        fn = ctx.path()
        ok, e = hk.try_dump(obj, fn)
        if ok:
            ok, y = hk.try_load(fn)
            raise Violation('unpicklable %s was dumped without error (loads as %s)' % (type(x).__name__, oracle.short(y)))
        ctx.event('unpicklable-raised')
        if hasattr(x, 'close') and not isinstance(x, types.GeneratorType):
            x.close()
        ctx.evaluated('unpicklable %s in %s' % (type(x).__name__, oracle.signature(obj, 2)), True, 'unpicklable %s: %s' % (type(x).__name__, type(e).__name__))


def case_loader(ctx, r):
    """a loader that fails (instead of declining) makes dump fail; one that declines, in whatever way, leads to a pickle"""
    for i in r.sample(range(len(LOADER_ERRORS)), 6):
        x = r.choice((Declined, DeclinedSub))(('raise', i))
        pos = r.randrange(6)
        obj = [x, [1, x], {'k': (1, 'a', [x])}, {(1, x): 2}, objarr(x), T.ListSub(['q', x])][pos]
        fn = ctx.path()
        try:
            _, w = recorded(lambda: hickle.dump(obj, fn))
        except Exception as e:
            if 'loader failed' not in str(e) and not isinstance(e, LOADER_ERRORS[i]):
                raise Violation('%s raised by a loader came out as %r' % (LOADER_ERRORS[i].__name__, e))
            ctx.event('loader-error-raised')
        else:
            raise Violation('%s raised by a loader was swallowed, warnings %s' % (LOADER_ERRORS[i].__name__, [str(v.message)[:80] for v in w]))
        ctx.evaluated('loader raises %s at %d' % (LOADER_ERRORS[i].__name__, pos), True, 'loader raising %s' % LOADER_ERRORS[i].__name__)
    for x in (Declined('subclass'), DeclinedSub('subclass'), Declined([1, 'x'])):
        obj = r.choice((lambda: x, lambda: [x, 'y'], lambda: {'k': {'l': x}}, lambda: (1, x)))()
        got = check(ctx, obj, [x], 'declined', {})
        while type(got) is not type(x):
            got = got['k'] if isinstance(got, dict) and 'k' in got else got['l'] if isinstance(got, dict) else got[0] if isinstance(got, list) else got[1]
        if got != x:
            raise Violation('declined %s became %s' % (oracle.short(x.v), oracle.short(got.v)))
        ctx.event('declined-by-loader')
    nat = [Declined('native'), DeclinedSub('native'), 'x']
    if check(ctx, nat, [], 'accepted by its loader', {}) != nat:
        raise Violation('object accepted by its loader changed')


def sys_frame():
    import sys
    return sys._getframe()


def objarr(x):
    a = np.empty(2, dtype=object)
    a[0] = x
    return a


def case(ctx):
    if ctx.index % 40 == 0:
        return case_many(ctx, ctx.rng)
    (case_positions, case_positions, case_native, case_positions, case_unpicklable, case_loader)[ctx.index % 6](ctx, ctx.rng)

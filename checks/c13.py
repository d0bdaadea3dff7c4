"""C13: instances of subclasses of built-in types come back as that subclass."""
import collections, http, re, signal, time, urllib.parse
import numpy as np
from vmon import gen, hk, oracle, types_for_tests as T
from vmon.core import Violation

ID = 'C13'
LEVEL = 'exploration'
NCASES = {'quick': 800, 'thorough': 16000}
MIN_DISTINCT = {'quick': 1500, 'thorough': 12000}
LISTS = (T.ListSub, T.ListSub2, T.MixedList, T.InitList, T.SlotList, T.Outer2.InnerList, T.FalsyList, T.ListÜ, T.Namespace.list)
TUPLES = (T.TupleSub, T.NewTuple)
SETS = (T.SetSub,)
DICTS = (T.DictSub, T.DictSub2, T.MixedDict, T.InitDict, T.OrderedSub, collections.OrderedDict, T.FalsyDict, T.Dictø, T.Namespace.dict)
STRS = (T.StrSub, T.StrSub2, T.NewStr, T.Outer2.InnerStr, T.Strñ, T.str_, T.Namespace.str)
BYTES = (T.BytesSub, T.Bytes数, T.bytes_, T.Namespace.bytes)
INTS = (T.IntSub, T.MixedInt, T.FalsyInt, T.Intё, T.Namespace.int)
FLOATS = (T.FloatSub, T.FloatNew)
COMPLEX = (T.ComplexSub,)
CONST = (T.SInt.ONE, T.SInt.TWO, T.SFlag.A, T.SFlag.A | T.SFlag.B, T.StrEnumLike.A, T.SStr.Y, http.HTTPStatus.OK, signal.SIGINT, re.I | re.M, lambda: time.gmtime(0), lambda: urllib.parse.ParseResult(*(''.join(list(x)) for x in ('http', 'a', '/b', '', 'c', ''))))
REQUIRED = ['list', 'tuple', 'set', 'dict', 'str', 'bytes', 'int', 'float', 'complex', 'namedtuple', 'counter', 'defaultdict', 'ordered', 'enum', 'numeric-only', 'empty', 'as-key', 'as-set-item', 'in-objarray', 'mixed-with-base', 'shared', 'compared', 'with-options', 'top', 'long']
RULE = ('instances of about 35 user-defined and standard-library subclasses of the nine built-in types with random contents (empty, all-numeric, nested, other subclasses inside), at top level, nested, as dict keys, set items, object '
        'array items, mixed with their base type, and shared; oracle: exact class, contents recursively with exact classes, sharing; distinct by structure')
ASSUMPTIONS = ['the class can be constructed the way its base class is; instance attributes beyond the contents are not part of the property']


LONG = 99      # in place of a depth: one long container


def leaf(ctx, r):
    k = r.randrange(11)
    if k == 0:
        ctx.event('str')
        return r.choice(STRS)(gen.rstr(r, 50))
    if k == 1:
        ctx.event('bytes')
        return r.choice(BYTES)(gen.rbytes(r, 50))
    if k == 2:
        ctx.event('int')
        return r.choice(INTS)(gen.rint(r))
    if k == 3:
        ctx.event('float')
        return r.choice(FLOATS)(gen.rfloat(r))
    if k == 4:
        ctx.event('complex')
        return T.ComplexSub(gen.rcomplex(r))
    if k == 5:
        ctx.event('enum')
        # pickled as a whole: an item inside is not shared with one outside, so each gets its own
        c = r.choice(CONST)
        return c() if callable(c) else c
    return gen.rscalar(r)


def hleaf(ctx, r):
    """hashable, comparable"""
    while True:
        x = leaf(ctx, r)
        try:
            hash(x)
        except TypeError:
            continue
        if x == x:
            return x


def value(ctx, r, depth):
    if depth <= 0 or r.random() < .25:
        return leaf(ctx, r)
    n = r.choice((0, 1, 2, 3, 5))
    if depth == LONG:
        n, depth = r.choice((60, 130, 300)), 1
        ctx.event('long')
    k = r.randrange(13)
    items = lambda: [value(ctx, r, depth - 1) for _ in range(n)]
    if n == 0:
        ctx.event('empty')
    if k <= 1:
        ctx.event('list')
        return r.choice(LISTS)(items())
    if k == 2:
        ctx.event('tuple')
        return r.choice(TUPLES)(items())
    if k == 3:
        ctx.event('set')
        return T.SetSub(gen_set(ctx, r, n))
    if k in (4, 5):
        ctx.event('dict')
        c = r.choice(DICTS)
        if c in (collections.OrderedDict, T.OrderedSub):
            ctx.event('ordered')
        return c(pairs(ctx, r, n, depth))
    if k == 6:
        ctx.event('namedtuple')
        return r.choice((T.Point, T.TPoint, T.PointSub))(value(ctx, r, depth - 1), value(ctx, r, depth - 1))
    if k == 7:
        ctx.event('counter')
        return r.choice((collections.Counter, T.CounterSub))({hleaf(ctx, r): r.randint(-3, 9) for _ in range(n)})
    if k == 8:
        ctx.event('defaultdict')
        return r.choice((collections.defaultdict, T.DefSub))(r.choice((list, int, None, T.func, T.ListSub)), dict(pairs(ctx, r, n, depth)))
    if k == 9:
        # items all of one numeric subclass, or subclasses mixed with plain numbers
        ctx.event('numeric-only')
        c = r.choice(INTS + FLOATS + COMPLEX)
        xs = [c(r.randint(-5, 300)) for _ in range(max(n, 1))]
        if r.random() < .5:
            xs += [r.choice((1, 2.5, True, T.SInt.TWO))]
            ctx.event('mixed-with-base')
            r.shuffle(xs)
        return r.choice((list, tuple) + LISTS + TUPLES)(xs)
    if k == 10:
        ctx.event('numeric-only')
        xs = [gen.rsmallint(r) for _ in range(n)]
        return r.choice(LISTS + TUPLES + (set, T.SetSub))(xs)
    if k == 11:
        ctx.event('in-objarray')
        a = np.empty(n + 1, dtype=object)
        for i in range(n + 1):
            a[i] = value(ctx, r, depth - 1)
        return a
    return r.choice((list, tuple))(items())


def gen_set(ctx, r, n):
    ctx.event('as-set-item')
    return [hleaf(ctx, r) for _ in range(n)]


def pairs(ctx, r, n, depth):
    out = []
    seen = []
    for i in range(n):
        k = hleaf(ctx, r) if r.random() < .6 else r.choice((T.TupleSub((i, 'x')), T.Point(i, 2), T.StrSub('k%d' % i), T.IntSub(i), (i, T.StrSub('q')), T.BytesSub(b'%d' % i)))
        if any(k == s for s in seen):
            continue
        if type(k) not in (str, int, bytes, float, complex, bool, type(None)):
            ctx.event('as-key')
        seen.append(k)
        out.append((k, value(ctx, r, depth - 1)))
    return out


def same_default(a, b):
    """default factories along the structure"""
    if isinstance(a, collections.defaultdict):
        if a.default_factory is not b.default_factory:
            return 'default factory %r became %r' % (a.default_factory, b.default_factory)
    for (s, x), (_, y) in zip(oracle.children(a), oracle.children(b)):
        d = same_default(x, y)
        if d:
            return d
    return None


def case(ctx):
    r = ctx.rng
    for n in range(4):
        obj = value(ctx, r, LONG if ctx.index % 5 == 0 and n == 0 else r.choice((1, 2, 3)))
        ctx.event('top')
        if r.random() < .3:
            obj = {'a': obj, 'b': [obj, 'x'], 'c': T.TupleSub((obj,))}
            ctx.event('shared')
        kw = {}
        if r.random() < .2:
            kw = dict(compression='gzip')
            ctx.event('with-options')
        res = hk.roundtrip(ctx, obj, **kw)
        d = oracle.diff(obj, res) or same_default(obj, res)
        if d:
            raise Violation('%s: %s' % (oracle.short(obj), d))
        m, _ = oracle.alias_diff(obj, res)
        if m:
            raise Violation('%s: %s' % (oracle.short(obj), m))
        ctx.event('compared')
        ctx.evaluated(oracle.signature(obj, 4), True, oracle.short(obj))

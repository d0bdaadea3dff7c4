"""C02: dict keys come back with value, type, order and partner value."""
import datetime, enum, fractions, uuid
import numpy as np
from vmon import gen, hk, oracle, types_for_tests as T
from vmon.core import Violation

ID = 'C02'
LEVEL = 'exploration'
NCASES = {'quick': 260, 'thorough': 6000}
MIN_DISTINCT = {'quick': 200, 'thorough': 4000}
CASE_TIMEOUT = 500
REQUIRED = ['nan-keys', 'dump', 'load', 'compared', 'huge-dict', 'long-keys', 'key:str', 'key:bytes', 'key:int', 'key:float', 'key:complex', 'key:bool', 'key:NoneType', 'key:tuple',
            'key:object', 'key:numpy', 'key:subclass', 'node:dict:group', 'node:tuple:group', 'many-pairs', 'attr-access']
RULE = ('dicts of up to 400 keys: random keys of every kind, families of keys whose textual forms coincide or nearly coincide, '
        'keys that look like names used in the file, re-ordered insertions and deletions before the dump, dicts nested as values; the value of '
        'every key is unique so that a swap is seen; compared type-exactly and in order; non-trivial if at least two keys; distinct by list of keys')
ASSUMPTIONS = ['NaN keys are compared as keys by representation']


def family(r):
    """keys whose textual forms resemble each other"""
    b = r.choice([1, 0, -1, 10, 255, 2 ** 63, 2 ** 70, 12])
    s = r.choice(('', '', '', '\ud800', '\udcff')) + str(b)
    fam = [b, s, s.encode('utf8', 'surrogatepass'), (b,), (s,), str((b,)), '"%s"' % s, "'%s'" % s, "b'%s'" % s, 'b"%s"' % s, float(b) + .5, str(float(b) + .5), complex(b, 2), str(complex(b, 2)),
           '0' + s, s + '.0', ' ' + s, s + ' ', (s.encode('utf8', 'surrogatepass'),), '"' + s, s + '"', '\\' + s, s + '\\', '/' + s, s + '/', '%s/%s' % (s, s), '%s\\%s' % (s, s), repr(s.encode('utf8', 'surrogatepass')),
           s + '\x00', '\x00' + s, '""' + s + '""', '""%s""' % s.encode('utf8', 'surrogatepass')]
    r.shuffle(fam)
    return fam[:r.randint(4, len(fam))]


def boolish(r):
    fam = [True, 'True', b'True', 'False', None, 'None', b'None', ('True',), 2, '2', 'true', '"True"', 1.5, '1.5', 'nan', 'inf', float('inf'), '-inf', float('-inf'),
           1j, '1j', '(1+2j)', 1 + 2j, -0.5, '-0.5', 1e300, '1e300', 1e-300, (), '()', ((),), b'', '', b'b', 'b', False, 3.0, '3.0', '3', 10 ** 30, '1' + '0' * 30]
    r.shuffle(fam)
    return fam[:r.randint(3, len(fam))]


def names(r):
    fam = ['data', 'data0', 'data_0', 'data1', 'data_1', 'data10', 'data2', 'type', 'base_type', 'key', 'value', 'key_idx', 'item_index', 'hickle_types_table', 'str', 'bytes', 'int',
           'key_value', 'key_base_type', 'HICKLE_VERSION', 'CLASS', 'mask', '0', '00', 'data0/data1', 'data0\\data1', 'b"data0"', '"data0"', "'data0'", b'data0', b'"data0"', ('data0',),
           'ndim', 'self', '.', '..', './data0', '../data', 'a/../b', 'a//b', 'a/b', 'a\\b', 'a', 'b', '/', '//', '\\', '\\\\', '\\/', '/\\', 'key_value0', '!node-reference!']
    r.shuffle(fam)
    return fam[:r.randint(4, len(fam))]


def slashes(r):
    out = []
    for _ in range(r.randint(4, 30)):
        s = ''.join(r.choice('/\\"\'\x00.ab01é \ud800') for _ in range(r.randint(0, 7)))
        out.append(s)
        if r.random() < .3:
            out.append(s.encode('utf8', 'surrogatepass'))
        if r.random() < .2:
            out.append((s,))
    return out


def objects(r):
    fam = [np.int64(5), np.float32(1.5), np.str_('np'), np.bytes_(b'np'), np.uint8(200), np.float64(2.25), np.complex64(1 + 1j), np.int8(-3), np.bool_(True) if r.random() < .5 else 77,
           datetime.date(2020, 1, 2), datetime.timedelta(3), fractions.Fraction(1, 3), uuid.UUID(int=r.getrandbits(128)), T.Color.RED, T.Color.BLUE, T.Point(1, 2), T.Frozen(1, 'x'),
           T.Frozen(2, 'x'), frozenset({1, 2}), frozenset(), T.StrSub('s'), T.BytesSub(b's'), T.IntSub(41), T.FloatSub(41.5), 's', b's', 41, 41.5, T.TupleSub((1, 2)), (1, 2), (1, (2, (3, 'x'))),
           range(3), int, T.Frozen, len, T.func, ((1, 2.5), 'x', None), (b'\xff', True), (None,), (np.int32(3), 'a'), T.SInt.ONE, ('a', 'a'), (('a',),), T.StrSub('a/b'), T.StrSub('')]
    r.shuffle(fam)
    return fam[:r.randint(2, len(fam))]


def manypairs(r, n):
    """many keys that cannot be names: each becomes a key/value pair made on the fly"""
    return [(i, r.choice('abc')) if r.random() < .5 else frozenset({i}) if r.random() < .3 else (str(i), (i,)) for i in range(n)]


def longs(r):
    """long keys that differ at one end, in the middle or in length only"""
    out = []
    for n in r.sample((60, 130, 255, 256, 1000, 1025, 4096, 8200, 65535, 70000), 4):
        s = ''.join(r.choice('abcé') for _ in range(n)) if r.random() < .5 else r.choice('xé中') * n
        m = n // 2
        fam = [s, s + 'a', s + 'b', 'a' + s, s[:m] + '1' + s[m:], s[:m] + '2' + s[m:], s[:-1], s.encode('utf8'), s.encode('utf8') + b'\xff', s.encode('utf8') + b'\xfe', (s,), (s, 1), s + '/', s + '\\', s + '"', T.StrSub(s), int('7' * min(n, 4000)), s + '\0']
        out += r.sample(fam, 7)
    return out


def keys(ctx):
    r, k = ctx.rng, ctx.index % 13
    if ctx.index == 8 or ctx.index == 21 and ctx.thorough:      # more keys than 16 bit numbers can count
        ctx.event('huge-dict')
        return list(range(33000 if ctx.index == 8 else 66000))
    if ctx.index % 26 == 25:
        ctx.event('long-keys')
        return longs(r)
    if k == 0:
        return family(r)
    if k == 1:
        return boolish(r)
    if k == 2:
        return names(r)
    if k == 3:
        return slashes(r)
    if k == 4:
        return objects(r)
    if k == 5:
        ctx.event('many-pairs')
        if ctx.index == 5:      # without shared parts, loading references takes long
            return [(i, i + .5) if i % 2 else (i, i + 1) for i in range(2100)]
        return manypairs(r, r.choice((12, 60, 150)))
    if k == 6:      # more than ten / hundred plain keys: order by number, not by text
        n = r.choice((11, 25, 110, 300))
        return r.choice(([str(i) for i in range(n)], list(range(n)), ['k%d' % i for i in range(n, 0, -1)], [i / 4 for i in range(n)], [chr(97 + i % 26) * (i // 26 + 1) for i in range(n)]))
    if k == 7:
        return family(r) + boolish(r) + names(r)
    if k == 8:
        return gen.INT_EDGES + [str(i) for i in gen.INT_EDGES if r.random() < .5] if r.random() < .5 else gen.FLOAT_EDGES + [repr(x) for x in gen.FLOAT_EDGES]
    if k == 9:
        return list(gen.STR_CATALOG) + ([b for b in gen.BYTES_CATALOG] if r.random() < .6 else [])
    if k == 10:
        ctx.event('nan-keys')
        return [float('nan'), float('nan'), complex(float('nan'), 0), complex(float('nan'), 0), np.float64('nan')][:r.randint(2, 5)] + [gen.rcomplex(r) for _ in range(6)] + [gen.rfloat(r) for _ in range(10)] + [gen.rint(r) for _ in range(10)] + [1 << 15000, -1 << 15001, (1 << 15002, 'x')]
    return [gen.rkey(r, 2) for _ in range(r.choice((3, 8, 20, 60)))]


def kind(k):
    t = type(k)
    if t.__name__ in ('str', 'bytes', 'int', 'float', 'complex', 'bool', 'NoneType', 'tuple') and t.__module__ == 'builtins':
        return t.__name__
    if isinstance(k, np.generic):
        return 'numpy'
    if isinstance(k, (str, bytes, int, float, tuple)):
        return 'subclass'
    return 'object'


def tag(i, k):
    return i % 4 == 0 and i * 10 + 1 or i % 4 == 1 and 'v%d' % i or i % 4 == 2 and [i, None] or {'n': i}


def case(ctx):
    r = ctx.rng
    d = {}
    for k in keys(ctx):
        if gen._nan_like(k) and sum(gen._nan_like(x) for x in d) > 4:
            continue
        d[k] = None
    ks = list(d)
    if r.random() < .5:
        r.shuffle(ks)
    d = {k: tag(i, k) if len(ks) < 9000 else i for i, k in enumerate(ks)}
    if r.random() < .4 and len(ks) > 3:     # deletion and reinsertion before the dump
        k = ks[r.randrange(len(ks))]
        v = d.pop(k)
        d[k] = v
    if len(ks) < 2000 and r.random() < .3:  # all values the same shared / memoised object or None
        sh = r.choice((None, [1, 'x'], 'same', {}, ()))
        for i, k in enumerate(ks):
            if i % 3 == 0:
                d[k] = sh
    wrap = r.randrange(5) if len(ks) < 2000 else 0
    obj = d if wrap < 2 else [d, {'again': d}] if wrap == 2 else {'outer': d, 1: 'x', (1,): d} if wrap == 3 else {k: {k: v} for k, v in d.items()}
    res = hk.check_roundtrip(ctx, obj, observe=ctx.index % 2 == 0)
    dd = d if wrap != 4 else obj
    back = res if wrap < 2 or wrap == 4 else res[0] if wrap == 2 else res['outer']
    for k in dd:                            # every key finds its own value
        ctx.event('key:' + kind(k))
        if gen._nan_like(k):
            continue
        if k not in back:
            raise Violation('key %s not found in the loaded dict' % oracle.short(k))
        m = oracle.diff(dd[k], back[k])
        if m:
            raise Violation('key %s: %s' % (oracle.short(k), m))
        ctx.event('attr-access')
    ctx.evaluated('|'.join(repr(type(k).__name__) + oracle.short(k) for k in dd), len(dd) > 1, oracle.short(list(dd)))

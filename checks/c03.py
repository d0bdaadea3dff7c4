"""C03: NumPy arrays, scalars, dtypes, matrices and masked arrays round trip exactly."""
import numpy as np
from vmon import gen, hk, oracle
from vmon.core import Violation

ID = 'C03'
LEVEL = 'exploration'
NCASES = {'quick': 400, 'thorough': 8000}
MIN_DISTINCT = {'quick': 800, 'thorough': 10000}
REQUIRED = ['compared', 'empty', 'zero-dim', 'strided', 'fortran', 'big-endian', 'structured', 'object', 'masked', 'nomask', 'matrix', 'U', 'S', 'V', 'scalar', 'dtype', 'nested', 'dump-refused',
            'readonly', 'large']
RULE = ('NumPy objects over 26 numeric dtypes, byte and unicode strings of any content, void, structured (nested, with sub-arrays) and object dtypes, shapes from () and (0,) to four '
        'dimensions and 2e5 items, seven memory layouts, scalars, dtypes, masked arrays and matrices, alone and nested in containers; compared by type, dtype string, shape '
        'and bytes; a refusal by dump is counted, not compared; distinct by dtype, shape, layout and kind')
ASSUMPTIONS = ['objects dump refuses with an exception are outside the property (counted as dump-refused)',
               'mask of masked arrays compared as full mask; fill_value and hardmask not part of the property',
               'extended precision compared by value']


def note(ctx, a):
    if isinstance(a, np.dtype):
        return ctx.event('dtype')
    if isinstance(a, np.generic):
        return ctx.event('scalar')
    if not isinstance(a, np.ndarray):
        return
    if a.size == 0:
        ctx.event('empty')
    if a.ndim == 0:
        ctx.event('zero-dim')
    if a.ndim and a.size > 1 and not a.flags.c_contiguous:
        ctx.event('fortran' if a.flags.f_contiguous else 'strided')
    if not a.flags.writeable:
        ctx.event('readonly')
    if a.dtype.str.startswith('>'):
        ctx.event('big-endian')
    if a.size > 50000:
        ctx.event('large')
    if a.dtype.names:
        ctx.event('structured')
    if a.dtype == object:
        ctx.event('object')
    if a.dtype.kind in 'USV':
        ctx.event(a.dtype.kind)
    if isinstance(a, np.ma.MaskedArray):
        ctx.event('masked')
        if np.ma.getmask(a) is np.ma.nomask:
            ctx.event('nomask')
    if isinstance(a, np.matrix):
        ctx.event('matrix')


_titled = np.dtype([(('title of a', 'a'), '>i4'), ('b', [(('u', 'c'), 'f8')], (2,)), ('\xfc d', 'S3')])
_t = np.zeros(3, _titled)
_t['a'], _t['\xfc d'] = (1, -2, 3), (b'x', b'yz', b'')
TITLED = [_t, _t[1], _t.reshape(3, 1), _t[:0], np.array(_t[1]), np.ma.array(_t, mask=[True, False, True]), _titled, np.zeros(2, [(('only', 'a'), 'i4')]), np.zeros((2, 2), [('in', [(('deep', 'x'), 'U2')])]),
          np.zeros(2, [('\xe9', 'i2'), ('x y', 'f4'), ('/', 'u1')]), np.zeros(2, {'names': ['a', 'b'], 'formats': ['i4', 'f8'], 'offsets': [4, 16], 'itemsize': 32})]
CAT = [np.array([]), np.array([], dtype='U3'), np.array([], dtype='S3'), np.array([], dtype=object), np.zeros((0, 3)), np.zeros((3, 0), 'U1'), np.array(1.5), np.array('a'), np.array(b'a'),
       np.array(None), np.array([None]), np.array([[1, 2], [3, 4]], dtype=object), np.array(['', '']), np.array([b'', b'']), np.array(['a', 'bb', 'é']), np.array([b'\xff', b'\x00a', b'a']),
       np.float16(1.5), np.bool_(True), np.str_(''), np.str_('é'), np.bytes_(b''), np.bytes_(b'\xff'), np.array(True), np.arange(200000, dtype='i4'), np.arange(200000.).reshape(400, 500).T,
       np.array([['a', 'b'], ['c', 'd']]), np.array([['a', 'b'], ['c', 'd']]).T, np.array([[b'a', b'b'], [b'c', b'd']], order='F'), np.matrix([[1, 2], [3, 4]]), np.matrix([['a', 'b']]),
       np.array([1, 'x', None, 2.5], dtype=object), np.array([[], []], dtype=object), np.array([(1, 2.5)], dtype=[('a', 'i4'), ('b', 'f8')]), np.array((1, 2.5), dtype=[('a', 'i4'), ('b', 'f8')]),
       np.array([(1, 2.5)], dtype=[('a', 'i4'), ('b', 'f8')])[0], np.dtype('f8'), np.dtype('>i4'), np.dtype([('a', 'i4'), ('b', 'f8', (2,))]), np.dtype('U5'), np.dtype('O'), np.dtype('M8[ns]'),
       np.ma.array([1, 2, 3], mask=[0, 1, 0]), np.ma.array([1., 2., 3.]), np.ma.array([1, 2], mask=True), np.ma.array(['a', 'b'], mask=[1, 0]), np.ma.array([[1, 2], [3, 4]], mask=[[0, 1], [1, 0]]),
       np.array([{'a': 1}, [1, 2], 'x'], dtype=object), np.frombuffer(b'abcdef', 'V3'), np.array([0.0, -0.0, np.nan, np.inf]), np.array([2 ** 63], 'u8'), np.array(['\U0010ffff', 'a\x00b']),
       np.array(['x' * 300]), np.array([b'x' * 300]), np.arange(12).reshape(3, 4)[:, ::-1], np.arange(12).reshape(3, 4)[::2, 1:3], np.broadcast_to(np.arange(3), (4, 3)), np.zeros((1, 1, 1, 1)),
       np.zeros((2, 3), dtype=[('x', 'S2'), ('y', '>f4', (2, 2))]), np.float64('nan'), np.int64(-2 ** 63), np.uint64(2 ** 64 - 1), np.complex128(complex('nan')), np.longdouble(1) / 3,
       *TITLED]


def case(ctx):
    r = ctx.rng
    vals = []
    if ctx.index < 16:
        vals = CAT[ctx.index::16]
    else:
        if ctx.index % 16 == 0:
            n = r.choice((60000, 150000))
            vals.append(gen.layout(r, gen.fill_numeric(r, r.choice(gen.NUM_DTYPES), r.choice(((n,), (n // 50, 50), (3, n // 3))))))
        if ctx.index % 8 == 1:
            vals.append(np.frombuffer(bytes(r.getrandbits(8) for _ in range(30)), 'V%d' % r.choice((1, 2, 3, 5))).copy())
        if ctx.index % 8 == 2:
            vals.append(np.broadcast_to(gen.fill_numeric(r, r.choice(gen.NUM_DTYPES), (3,)), (r.randint(1, 5), 3)))
        vals += [gen.rnumpy(r) for _ in range(8)]
    ok = []
    for v in vals:
        note(ctx, v)
        p = ctx.path()
        done, err = hk.try_dump(v, p)
        if not done:
            # a refusal is allowed, but not for plain numeric or string data
            if isinstance(v, np.ndarray) and v.dtype.kind in 'biufcSU' and type(v) is np.ndarray:
                raise Violation('dump refused %s %s %s: %r' % (type(v), v.dtype, v.shape, err))
            ctx.event('dump-refused')
            continue
        ctx.event('dump')
        res = hk.load(ctx, p, v)
        d = oracle.diff(v, res)
        if d:
            raise Violation('round trip of %s dtype=%s shape=%s: %s' % (type(v).__name__, getattr(v, 'dtype', ''), getattr(v, 'shape', ''), d))
        ctx.event('compared')
        ctx.evaluated('%s %s %s %s' % (type(v).__name__, getattr(v, 'dtype', v), getattr(v, 'shape', ''), getattr(v, 'strides', '')), True,
                      '%s %s %s' % (type(v).__name__, getattr(v, 'dtype', v), getattr(v, 'shape', '')))
        ok.append(v)
    if ok and ctx.index % 2:
        # nested, mixed with built-in values and shared
        obj = {'list': list(ok), 'tuple': (ok[0], 1, ok[-1], 'x'), 'd': {i: v for i, v in enumerate(ok[:3])}, 'again': ok[0]}
        if ctx.index % 4 == 1:
            oa = np.empty(len(ok), object)
            for i, v in enumerate(ok):
                oa[i] = v
            obj['oa'] = oa
        hk.check_roundtrip(ctx, obj)
        ctx.event('nested')
        ctx.evaluated('nested ' + oracle.signature(obj), True)
    if ctx.index % 16 == 3:
        ctx.event('dump-refused', 0 if not hk.try_dump(np.array(['2020-01-01'], 'M8[D]'), ctx.path())[0] is False else 1)

"""
Seeded generators of Python / NumPy / SciPy / astropy objects.

All randomness comes from the random.Random handed in (case PRNG), so a case is
reproduced by (property, VERIF_SEED, index) alone.
"""
import struct, string
import numpy as np

INT_EDGES = sorted({s * (2 ** b + d) for b in (0, 1, 7, 8, 15, 16, 24, 31, 32, 52, 53, 54, 61, 62, 63, 64, 65, 127, 128, 200)
                    for d in (-2, -1, 0, 1, 2) for s in (1, -1)} | {0, 10 ** 18, 10 ** 19, 10 ** 20, -10 ** 19, 7 ** 400, -7 ** 401})
FLOAT_EDGES = [0.0, -0.0, 1.0, -1.0, 0.1, 1e-320, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
               float('inf'), float('-inf'), float('nan'), 2.0 ** 53, 2.0 ** 53 + 2, 2.0 ** 63, 2.0 ** 64, -2.0 ** 63, 1 / 3, 1e22, 123456789.123456789]
STR_CATALOG = ['', ' ', 'a', 'b', 'ab', 'data', 'data0', 'data1', 'data10', 'data_0', '0', '1', '-1', '1.0', 'True', 'False', 'None', 'nan',
               'type', 'base_type', 'hickle_types_table', '"', "'", '""', '"a"', "b'a'", 'b"a"', 'b"', 'b""', '\\', '/', '//', '\\/', 'a/b', 'a\\b', '/a', 'a/',
               '.', '..', './a', '...', 'a.b', '\x00', 'a\x00', '\x00a', 'a\x00b', '\n', '\t', '\r\n', 'é', 'ü', 'ß', 'ŝ', '日本語', '🙂', '\u200b', '\ufeff',
               'e\u0301', '\u00e9', '\uffff', '\U0010ffff', '\x7f', '\x80', '\xff', '(1, 2)', '(1,)', '()', '1j', '(1+2j)', 'key', 'value', 'mask', 'shape', 'x' * 64,
               'x' * 255, 'x' * 256, 'x' * 1000, '%s', '{}', '{0}', 'a b', ' a', 'a ', 'A', "it's", '!node-reference!', 'pickle',
               '\ud800', 'a\udfff', '\ud83d\ude42', '\udc80b', 'x\ud800/y', '\udcff\x00']
BYTES_CATALOG = [b'', b' ', b'a', b'b', b'ab', b'data0', b'0', b'1', b'True', b'None', b'"', b"'", b'\\', b'/', b'a/b', b'a\\b', b'\x00', b'a\x00', b'\x00a', b'\x00\x00',
                 b'\xff', b'\x80', b'\xc3', b'\xc3\xa9', b'\xe9', b'\n', b'x' * 64, b'x' * 300, b'pickle', b'(1, 2)', b'\x80\x04N.', bytes(range(256)), b'\xff' * 120, b'abc\xe9' * 30, 'é'.encode() * 200, b'x' * 90 + b'\xc3', b'\xed\xa0\x80']


def rint(r):
    k = r.random()
    if k < .45:
        return r.choice(INT_EDGES)
    if k < .75:
        return r.randint(-20, 300)
    v = r.getrandbits(r.choice((8, 31, 32, 52, 53, 54, 60, 62, 63, 64, 65, 90, 130, 600, 2500, 9000)))
    return -v if r.random() < .5 else v


def rsmallint(r):
    return r.randint(-1000, 1000) if r.random() < .7 else r.choice([x for x in INT_EDGES if abs(x) < 2 ** 62])


def rfloat(r):
    k = r.random()
    if k < .4:
        return r.choice(FLOAT_EDGES)
    if k < .7:
        return struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0]
    return r.uniform(-1e3, 1e3)


def rcomplex(r):
    return complex(rfloat(r), rfloat(r))


def rchar(r):
    while True:
        k = r.random()
        if k < .5:
            c = r.randint(32, 126)
        elif k < .6:
            c = r.randint(0, 31)
        elif k < .8:
            c = r.randint(128, 0x7ff)
        elif k < .95:
            c = r.randint(0x800, 0xffff)
        else:
            c = r.randint(0x10000, 0x10ffff)
        if not 0xd800 <= c <= 0xdfff or r.random() < .3:    # lone surrogates now and then
            return chr(c)


def rlen(r, big=40):
    k = r.random()
    if k < .3:
        return r.randint(0, 3)
    if k < .85:
        return r.randint(2, 14)
    return r.randint(min(10, big), big)


def rstr(r, big=400):
    k = r.random()
    if k < .5:
        return r.choice(STR_CATALOG)
    if k < .6:
        return r.choice(STR_CATALOG) + r.choice(STR_CATALOG)
    return ''.join(rchar(r) for _ in range(rlen(r, big)))


def rbytes(r, big=400):
    k = r.random()
    if k < .5:
        return r.choice(BYTES_CATALOG)
    return bytes(r.getrandbits(8) if r.random() < .7 else 0 for _ in range(rlen(r, big)))


def rscalar(r):
    k = r.randrange(12)
    if k < 3:
        return rint(r)
    if k < 5:
        return rfloat(r)
    if k == 5:
        return rcomplex(r)
    if k == 6:
        return r.random() < .5
    if k == 7:
        return None
    if k < 10:
        return rstr(r)
    return rbytes(r)


def rnumber(r):
    return r.choice((rint, rfloat, rcomplex, lambda r: r.random() < .5, rsmallint, rsmallint))(r)


def rhashable(r, depth=2):
    k = r.random()
    if k < .8 or depth <= 0:
        return rscalar(r)
    return tuple(rhashable(r, depth - 1) for _ in range(r.randint(0, 4)))


def rkey(r, depth=2):
    """a dict key"""
    k = r.random()
    if k < .35:
        return rstr(r, 60)
    if k < .5:
        return rbytes(r, 60)
    if k < .75:
        return rnumber(r)
    if k < .8:
        return None
    return rhashable(r, depth)


def _nan_like(x):
    if isinstance(x, (float, complex)):
        return x != x
    if isinstance(x, (tuple, frozenset)):
        return any(_nan_like(i) for i in x)
    return False


def rdict(r, value, n=None, key=rkey):
    n = rlen(r) if n is None else n
    d = {}
    for _ in range(n):
        k = key(r)
        if _nan_like(k):        # at most one of each: NaN keys never compare equal
            if any(_nan_like(x) for x in d):
                continue
        d[k] = value(r)
    return d


def rset(r, n=None, numeric=None):
    n = rlen(r) if n is None else n
    numeric = r.random() < .4 if numeric is None else numeric
    s = set()
    for _ in range(n):
        x = rnumber(r) if numeric else rhashable(r, 1)
        if not _nan_like(x):
            s.add(x)
    return s


def rvalue(r, depth=3, leaf=rscalar):
    """nested value over the built-in types"""
    if depth <= 0 or r.random() < .25:
        return leaf(r)
    k = r.randrange(10)
    sub = lambda r: rvalue(r, depth - 1, leaf)
    if k < 2:
        return [sub(r) for _ in range(rlen(r, 20))]
    if k < 4:
        return tuple(sub(r) for _ in range(rlen(r, 20)))
    if k < 6:
        return rdict(r, sub, r.randint(0, 12))
    if k == 6:
        return rset(r)
    if k == 7:      # homogeneous numeric list
        f = r.choice((rint, rfloat, rcomplex, rnumber, rsmallint, lambda r: r.random() < .5))
        return r.choice((list, tuple))(f(r) for _ in range(rlen(r, 60)))
    if k == 8:      # homogeneous string list
        f = r.choice((rstr, rbytes, lambda r: r.choice('abc'), lambda r: bytes([r.randrange(256)]), lambda r: r.choice((b'a', b'', 1, '', None))))
        return r.choice((list, tuple))(f(r) for _ in range(rlen(r, 30)))
    return leaf(r)


def deep(r, n):
    v = rscalar(r)
    for _ in range(n):
        k = r.randrange(4)
        v = [v] if k == 0 else (v,) if k == 1 else {rkey(r, 1): v} if k == 2 else [rscalar(r), v]
    return v


# ---------------------------------------------------------------- NumPy
NUM_DTYPES = ['?', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f2', 'f4', 'f8', 'g', 'c8', 'c16', 'G', '>g', '>G',
              '>i2', '>i4', '>i8', '>u2', '>u4', '>u8', '>f4', '>f8', '>f2', '>c16', '>c8']


def nprng(r):
    return np.random.default_rng(r.getrandbits(64))


def rshape(r, maxdim=4, maxsize=4000):
    k = r.random()
    if k < .12:
        return ()
    if k < .2:
        return (0,)
    while True:
        s = tuple(r.choice((0, 1, 1, 2, 3, 4, 5, 7, 11, 17, 130)) if r.random() < .93 else r.randint(1, 300) for _ in range(r.randint(1, maxdim)))
        if int(np.prod(s)) <= maxsize:
            return s


def fill_numeric(r, dt, shape):
    dt = np.dtype(dt)
    n = int(np.prod(shape))
    g = nprng(r)
    if dt.kind == 'b':
        return g.integers(0, 2, n).astype(dt).reshape(shape)
    if dt.kind == 'g' or dt.char in 'gG':
        a = (g.standard_normal(n).astype(dt) / dt.type(3)).reshape(shape)
    elif dt.kind in 'iu' or r.random() < .5:
        raw = g.integers(0, 256, n * dt.itemsize, dtype='u1')
        a = np.frombuffer(raw.tobytes(), dtype=dt, count=n).reshape(shape).copy()
    else:
        a = (g.standard_normal(n) * 10.0 ** r.randint(-5, 5)).astype(dt).reshape(shape)
    if dt.kind in 'fc' and n and r.random() < .4:
        flat = a.reshape(-1)
        for v in (np.nan, np.inf, -np.inf, -0.0):
            flat[r.randrange(n)] = v
    return a


def layout(r, a):
    """same values, different memory layout"""
    if a.ndim == 0:
        return a
    k = r.randrange(7)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return a.T
    if k == 2:
        return a[::-1]
    if k == 3 and a.size:
        big = np.empty(tuple(2 * n for n in a.shape), a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k == 4 and a.shape[0] > 1:
        return a[1:]
    if k == 5:
        b = a.copy()
        b.flags.writeable = False
        return b
    return a


def rstrarray(r, kind, shape=None):
    shape = rshape(r, 3, 300) if shape is None else shape
    n = int(np.prod(shape))
    if shape == () and r.random() < .5:
        # edges of single strings
        v = r.choice((' ', '\t', '\n', '\r\n', '\x00', '"', '\ufeff', 'x')) + r.choice(('', 'ab', 'é', '0')) + r.choice((' ', '\n', '\r\n', '\x00 ', '"', 'x'))
        return np.array(v, dtype=r.choice('<>') + 'U%d' % (len(v) + r.choice((0, 3)))) if kind == 'U' else np.array(v.encode('utf8'))
    if kind == 'U':
        items = [''.join(rchar(r) for _ in range(r.randint(0, 6))).rstrip('\x00') if r.random() < .7 else r.choice(STR_CATALOG[:60]).rstrip('\x00') for _ in range(n)]
        # numpy cannot hold trailing NULs
        w = max([len(i) for i in items] + [1]) + (r.choice((0, 0, 1, 9)) if n > 60 or r.random() > .1 else r.choice((300, 1030, 5000)))
        a = np.empty(n, dtype=r.choice('<>') + 'U%d' % w)
    else:
        items = [rbytes(r, 9).rstrip(b'\x00') for _ in range(n)]
        w = max([len(i) for i in items] + [1]) + (r.choice((0, 0, 1, 9)) if n > 60 or r.random() > .1 else r.choice((300, 1030, 5000, 70000)))
        a = np.empty(n, dtype='S%d' % w)
    for i, v in enumerate(items):
        a[i] = v
    return a.reshape(shape)


def rstructdtype(r, depth=1):
    fields = []
    names = r.sample(['a', 'b', 'x', 'y', 'id', 'value', 'f0', 'data', 'mask', 'long_name_of_field', 'A'], r.randint(1, 5))
    for nm in names:
        k = r.random()
        if k < .15 and depth:
            fields.append((nm, rstructdtype(r, depth - 1)))
        elif k < .3:
            fields.append((nm, r.choice([d for d in NUM_DTYPES if d[-1] not in 'gG']), (r.randint(1, 3),)))
        elif k < .45:
            fields.append((nm, 'S%d' % r.randint(1, 7)))
        else:
            fields.append((nm, r.choice([d for d in NUM_DTYPES if d[-1] not in 'gG'])))
    return np.dtype(fields)


def rstructarray(r, shape=None, dt=None):
    shape = rshape(r, 2, 60) if shape is None else shape
    dt = rstructdtype(r) if dt is None else dt
    n = int(np.prod(shape))
    a = np.zeros(n, dt)

    def fill(col):
        d = col.dtype
        if d.names:
            for nm in d.names:
                fill(col[nm])
        elif d.kind == 'S':
            for i in np.ndindex(*col.shape):
                col[i] = rbytes(r, 5).rstrip(b'\0')
        else:
            col[...] = fill_numeric(r, d, col.shape)
    for nm in dt.names:
        fill(a[nm])
    return a.reshape(shape)


def robjarray(r, shape=None, item=None):
    shape = rshape(r, 3, 40) if shape is None and r.random() < .8 else r.choice(((2, 1, 3, 2), (1, 2, 2, 2, 2), (2, 3, 1, 2), (2, 0, 1, 3), (1,) * 6, (2, 2, 2, 1, 2, 1))) if shape is None else shape
    n = int(np.prod(shape))
    a = np.empty(n, object)
    style = r.randrange(5)
    for i in range(n):
        if item is not None:
            a[i] = item(r)
        elif style == 0:
            a[i] = [1, 2, i]            # equal-length sequences
        elif style == 1:
            a[i] = rint(r)
        elif style == 2:
            a[i] = r.choice((None, 'a', b'b', 1, 2.5, (), [], {}, (1, 2), 'data', np.arange(3)))
        elif style == 3:
            a[i] = rstr(r, 8)
        else:
            a[i] = rvalue(r, 1)
    return a.reshape(shape)


def rarray(r):
    k = r.random()
    if k < .5:
        a = fill_numeric(r, r.choice(NUM_DTYPES), rshape(r))
    elif k < .62:
        a = rstrarray(r, 'U')
    elif k < .72:
        a = rstrarray(r, 'S')
    elif k < .82:
        a = rstructarray(r)
    elif k < .86:
        n = r.randint(1, 9)
        s = rshape(r, 2, 60)
        a = np.frombuffer(bytes(r.getrandbits(8) for _ in range(n * int(np.prod(s)))), 'V%d' % n).reshape(s).copy() if int(np.prod(s)) else np.zeros(s, 'V%d' % n)
    else:
        a = robjarray(r)
    return layout(r, a)


def rnpscalar(r):
    k = r.random()
    if k < .75:
        return fill_numeric(r, r.choice(NUM_DTYPES), (1,))[0]
    if k < .85:
        return np.str_(rstr(r, 20))
    if k < .92:
        return np.bytes_(rbytes(r, 20).rstrip(b'\0'))
    return rstructarray(r, (1,))[0]


def rdtype(r):
    k = r.random()
    if k < .5:
        return np.dtype(r.choice(NUM_DTYPES))
    if k < .75:
        return np.dtype(r.choice(['S5', '<U7', '>U3', 'O', 'M8[ns]', 'm8[s]', 'V7', 'S0', 'U0', 'M8[D]', '>M8[us]']))
    if k < .85:
        return np.dtype((r.choice(NUM_DTYPES), (r.randint(1, 3), 2)))
    return rstructdtype(r)


def rmasked(r):
    k = r.random()
    if k < .7:
        a = fill_numeric(r, r.choice(NUM_DTYPES), rshape(r, 3, 300))
    elif k < .85:
        a = rstrarray(r, r.choice('US'), rshape(r, 2, 40))
    else:
        a = rstructarray(r, rshape(r, 2, 40))
    m = r.random()
    if a.dtype.names:
        mask = np.ma.make_mask_none(a.shape, a.dtype)
        if m < .8:
            for nm in a.dtype.names:
                if mask.dtype[nm].names is None:
                    mask[nm] = nprng(r).integers(0, 2, mask[nm].shape).astype(bool)
    elif m < .2:
        mask = np.ma.nomask
    elif m < .35:
        mask = np.ones(a.shape, bool)
    else:
        mask = nprng(r).integers(0, 2, a.shape).astype(bool)
    return np.ma.array(a, mask=mask)


def rmatrix(r):
    s = (r.randint(0, 5), r.randint(1, 6))
    k = r.random()
    if k < .7:
        return np.matrix(fill_numeric(r, r.choice(NUM_DTYPES), s))
    if k < .9:
        return np.matrix(rstrarray(r, r.choice('US'), s))
    return np.matrix(robjarray(r, s, item=lambda r: r.choice((1, 'a', None, 2.5))))


def rnumpy(r):
    k = r.random()
    if k < .6:
        return rarray(r)
    if k < .75:
        return rnpscalar(r)
    if k < .82:
        return rdtype(r)
    if k < .95:
        return rmasked(r)
    return rmatrix(r)


# ---------------------------------------------------------------- SciPy
def rsparse(r):
    from scipy import sparse
    kind = r.choice(('csr', 'csc', 'bsr'))
    dt = r.choice(['?', 'i1', 'u1', 'i4', 'i8', 'u8', 'f4', 'f8', 'c8', 'c16', 'i2', 'u4'])
    if kind != 'bsr' and r.random() < .12:
        dt = r.choice(('>f8', '>i4', 'f2', '>c16', 'g', '>u2'))     # scipy keeps data of these types, its operations do not support them
    g = nprng(r)
    cls = dict(csr=sparse.csr_matrix, csc=sparse.csc_matrix, bsr=sparse.bsr_matrix)[kind]
    if kind == 'bsr':
        bs = (r.randint(1, 3), r.randint(1, 4))
        nb, mb = r.randint(1, 6), r.randint(1, 6)
        cnt = [r.randint(0, mb) if r.random() < .7 else 0 for _ in range(nb)]
        indptr = np.concatenate(([0], np.cumsum(cnt)))
        indices = np.concatenate([np.array(r.sample(range(mb), c), dtype=int) for c in cnt] + [np.array([], dtype=int)])
        data = fill_numeric(r, dt, (int(indptr[-1]),) + bs)
        m = cls((data, indices.astype('i4'), indptr.astype('i4')), shape=(nb * bs[0], mb * bs[1]))
    else:
        n, m_ = r.choice((0, 1, 2, 3, 5, 9, 40)), r.choice((0, 1, 2, 3, 5, 9, 40))
        if r.random() < .08:     # indices beyond 32 bit
            n, m_ = (4, 2 ** 33 + 5) if kind == 'csr' else (2 ** 33 + 5, 4)
        major, minor = (n, m_) if kind == 'csr' else (m_, n)
        cnt = [r.randint(0, min(minor, 60)) if r.random() < .6 and minor else 0 for _ in range(major)]
        indptr = np.concatenate(([0], np.cumsum(cnt))).astype(int)
        rows = []
        for c in cnt:
            if r.random() < .15 and c:      # duplicates
                rows.append(np.array([r.randrange(minor) for _ in range(c)], dtype=int))
            else:
                row = r.sample(range(minor), c)
                if r.random() < .5:
                    row.sort()
                rows.append(np.array(row, dtype=int))
        indices = np.concatenate(rows + [np.array([], dtype=int)])
        data = fill_numeric(r, dt, (int(indptr[-1]),))
        if data.size and r.random() < .5:
            data[r.randrange(data.size)] = 0
        it = r.choice(('i4', 'i8')) if minor < 2 ** 31 else 'i8'
        m = cls((n, m_), dtype=dt if np.dtype(dt).isnative and dt != 'f2' else 'f8')
        m.data, m.indices, m.indptr = data, indices.astype(it), indptr.astype(it)
    return m
